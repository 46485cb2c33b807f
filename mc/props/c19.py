"""C19: step by step subcommands give the result of complete, in any order.

A state is the set of steps done so far (with the files they left). Every step enabled in every reachable state is
executed on a copy of that state's files, and must leave exactly the files of the successor state, however that state
is reached. By induction all orders of the steps are covered.
"""
import hashlib
import json
import os
import shutil

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, run_ok, cli, write_tif, read_tif, read_layer, layer_names, TRANSFORMS

BOUNDS = ("all reachable states (sets of executed steps) of the whole documented process chain and all steps from each of them, for DEMs x options x one datasource or separate files; "
          "all interleavings (as states) of up to three rain scenarios; every step repeated, into new and into the same outputs; compared with complete")
ASSUMPTIONS = ["every step writes to a new file or layer", "GDAL reads back what was written (independent reader)"]

WKT = ('PROJCS["ETRS89 / UTM zone 32N",GEOGCS["ETRS89",DATUM["European_Terrestrial_Reference_System_1989",SPHEROID["GRS 1980",6378137,298.257222101]],PRIMEM["Greenwich",0],'
       'UNIT["degree",0.0174532925199433]],PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",0],PARAMETER["central_meridian",9],PARAMETER["scale_factor",0.9996],'
       'PARAMETER["false_easting",500000],PARAMETER["false_northing",0],UNIT["metre",1],AUTHORITY["EPSG","25832"]]')


class Chain(object):
    """The steps of the process chain: what they need, what they write and their command line"""

    def __init__(self, opts):
        o = self.opts = opts
        one = o.get("one", True)
        G = ("gpkg", "results.gpkg")
        S = {}

        def where(name, fmt, ext):
            if one:
                return G
            return fmt, "%s_ds.%s" % (name, ext)

        self.layers = L = {}

        def vec(name, layer, fmt, ext):
            f, path = where(name, fmt, ext)
            if not one and ext in ("shp", "csv", "geojson"):
                layer = os.path.splitext(path)[0]
            L[name] = (path, layer)
            return f, path, layer
        acc = o.get("accum")
        S["filled"] = ((), ["filled", "-dem", "dem.tif", "-out", "filled.tif"], ["filled.tif"])
        S["depths"] = (("filled",), ["depths", "-dem", "dem.tif", "-filled", "filled.tif", "-out", "depths.tif"], ["depths.tif"])
        S["flowdir"] = ((), ["flowdir", "-dem", "dem.tif", "-out", "flowdir.tif"], ["flowdir.tif"])
        if acc:
            S["accum"] = (("flowdir",), ["accum", "-flowdir", "flowdir.tif", "-out", "accum.tif"], ["accum.tif"])
        S["bspots"] = (("depths",), ["bspots", "-depths", "depths.tif", "-out", "bs.tif"] + (["-filter", o["filter"]] if o.get("filter") else []), ["bs.tif"])
        S["wsheds"] = (("bspots", "flowdir"), ["wsheds", "-bluespots", "bs.tif", "-flowdir", "flowdir.tif", "-out", "ws.tif"], ["ws.tif"])
        f, pp, ppl = vec("pourpoints", "pourpoints", "ESRI shapefile", "shp")
        S["pourpts"] = (("bspots", "depths", "wsheds") + (("accum",) if acc else ()),
                        ["pourpts", "-bluespots", "bs.tif", "-depths", "depths.tif", "-watersheds", "ws.tif"] + (["-accum", "accum.tif"] if acc else ["-dem", "dem.tif"]) +
                        ["-out", pp, "-layername", ppl, "-format", f], ["pourpoints"])
        f, hy, hyl = vec("hypsometry", "hyps", "CSV", "csv")
        S["hyps"] = (("bspots", "pourpts"), ["hyps", "-bluespots", "bs.tif", "-dem", "dem.tif", "-pourpoints", pp, "-pourpoints_layer", ppl, "-zresolution", o["zres"],
                                              "-out", hy, "-out_hyps_layer", hyl, "-format", f], ["hypsometry"])
        f, no, nol = vec("nodes", "nodes", "geojson", "geojson")
        if one:
            st, stl = no, "streams"
        else:   # nodes and streams go to the same datasource: a format which takes several layers
            f, no, nol, st, stl = "gpkg", "net_ds.gpkg", "nodes", "net_ds.gpkg", "streams"
        L["nodes"], L["streams"] = (no, nol), (st, stl)
        S["network"] = (("bspots", "flowdir", "pourpts"), ["network", "-bluespots", "bs.tif", "-flowdir", "flowdir.tif", "-pourpoints", pp, "-pourpoints_layer", ppl,
                                                           "-out", no, "-out_nodes_layer", nol, "-out_streams_layer", stl, "-format", f], ["nodes", "streams"])
        for k, sc in enumerate(o.get("scenarios", ["mm:20"])):
            t = "" if k == 0 else str(k)
            f, iv, ivl = vec("initvolumes" + t, "initvolumes" + t, "geojson", "geojson")
            kind, val = sc.split(":")
            if kind == "mm":
                a = ["-mm", val]
            else:
                a = ["-pr", "rain%s.tif" % val, "-bluespots", "ws.tif"]     # rain on all of a watershed reaches its bluespot
            S["init" + t] = (("network",), ["initvolumes", "-nodes", no, "-nodes_layer", nol] + a + ["-out", iv, "-out_layer", ivl, "-format", f], ["initvolumes" + t])
            f, fv, fvl = vec("finalstate" + t, "finalvolumes" + t, "ESRI shapefile", "shp")
            S["final" + t] = (("init" + t,), ["finalvolumes", "-inputvolumes", iv, "-inputvolumes_layer", ivl, "-out", fv, "-out_layer", fvl, "-format", f], ["finalstate" + t])
            f, fl, fll = vec("finallevels" + t, "finallevels" + t, "CSV", "csv")
            S["levels" + t] = (("final" + t, "hyps"), ["finallevels", "-finalvols", fv, "-finalvols_layer", fvl, "-hyps", hy, "-hyps_layer", hyl, "-out", fl, "-out_layer", fll, "-format", f],
                               ["finallevels" + t])
            outs = [["-out_depths", "fd%s.tif" % t], ["-out_bluespots", "fb%s.tif" % t]]
            S["fbs" + t] = (("levels" + t,), ["finalbluespots", "-bluespots", "bs.tif", "-dem", "dem.tif", "-finallevels", fl, "-finallevels_layer", fll] + outs[0] + outs[1],
                            ["fd%s.tif" % t, "fb%s.tif" % t])
            f, p, pl = vec("finalbluespots" + t, "finalpolygons" + t, "geojson", "geojson")
            S["fpolys" + t] = (("fbs" + t,), ["polys", "-raster", "fb%s.tif" % t, "-out", p, "-layername", pl, "-format", f], ["finalbluespots" + t])
        if o.get("vector"):
            for n, r, src in (("bluespots", "bs.tif", "bspots"), ("watersheds", "ws.tif", "wsheds")):
                f, p, pl = vec(n, n + "_polys", "ESRI shapefile", "shp")
                S[n + "_polys"] = ((src,), ["polys", "-raster", r, "-out", p, "-layername", pl, "-format", f], [n])
        self.steps = S
        self.order = list(S)

    def ideals(self, base=()):
        """All sets of steps closed under 'needs' which contain base, in order of size"""
        first = frozenset(base)
        seen, todo = {first: None}, [first]
        for s in todo:
            for x in self.enabled(s):
                t = s | {x}
                if t not in seen:
                    seen[t] = None
                    todo.append(t)
        return todo

    def enabled(self, s):
        return [x for x in self.order if x not in s and all(n in s for n in self.steps[x][0])]

    def closure(self, x):
        out = {x}
        for n in self.steps[x][0]:
            out |= self.closure(n)
        return out

    def outputs(self, s):
        return [a for x in self.order if x in s for a in self.steps[x][2]]

    def describe(self, d, artifact):
        """Contents of an artifact, independent of feature order and file layout"""
        if artifact.endswith(".tif"):
            a, t, crs, nd = read_tif(os.path.join(d, artifact))
            return ("raster", a.shape, a.dtype.name, hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest(), tuple(t), bool(crs), nd)
        path, layer = self.layers[artifact]
        fs = read_layer(os.path.join(d, path), layer)
        for f in fs:
            f.pop("id", None)
        return ("layer", sorted(json.dumps(f, sort_keys=True) for f in fs))


class States(object):
    """Files of every state, made on demand along the canonical order"""

    def __init__(self, chain, root, inputs):
        self.chain, self.root, self.inputs = chain, root, inputs
        self.work = os.path.join(root, "work")      # every step runs at this path
        self.dirs, self.desc = {}, {}

    def prepare(self, src):
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        if src is None:
            os.mkdir(self.work)
            self.inputs(self.work)
        else:
            shutil.copytree(src, self.work)

    def run(self, s, x):
        """Executes step x on a copy of the files of state s; returns the descriptions of all artifacts afterwards"""
        self.prepare(self.state(s))
        before = snapshot(self.work)
        cwd = os.getcwd()
        os.chdir(self.work)
        try:
            run_ok(*self.chain.steps[x][1])
        finally:
            os.chdir(cwd)
        outs = set()
        for a in self.chain.steps[x][2]:
            p = a if a.endswith(".tif") else self.chain.layers[a][0]
            outs.add(p)
        after = snapshot(self.work)
        for f in before:
            require(f in after, "%s removed %s", x, f)
            if f not in outs:
                require(before[f] == after[f], "%s changed %s", x, f)
        return {a: self.chain.describe(self.work, a) for a in self.chain.outputs(s | {x})}

    def state(self, s):
        if s not in self.dirs:
            if not s:
                self.prepare(None)
                self.desc[s] = {}
            else:
                x = [y for y in self.chain.order if y in s and not any(y in self.chain.steps[z][0] for z in s)][-1]
                self.desc[s] = self.run(s - {x}, x)
            d = os.path.join(self.root, "s%d" % len(self.dirs))
            shutil.copytree(self.work, d)
            self.dirs[s] = d
        return self.dirs[s]

    def step(self, s, x):
        self.state(s | {x})
        got = self.run(s, x)
        for a, v in self.desc[s].items():
            require(got[a] == v, "step %s after %s changes %s: %s", x, sorted(s), a, differ(got[a], v))
        for a, v in self.desc[s | {x}].items():
            require(got[a] == v, "step %s after %s gives another %s than the canonical order: %s", x, sorted(s), a, differ(got[a], v))
        return 1, repr(sorted(got.items()))

    def again(self, s, x):
        """Step x once more in a state where it has been executed, into new outputs"""
        d = self.state(s)
        self.prepare(d)
        outs = [a for a in self.chain.steps[x][2]]
        args, keep = [str(a) for a in self.chain.steps[x][1]], {}
        for i, a in enumerate(args):
            if args[i - 1].startswith("-out") and a.endswith(".tif"):
                args[i] = "again_" + a
                keep[a] = args[i]
        if not keep:
            layers = {"-layername": 0, "-out_layer": 0, "-out_hyps_layer": 0, "-out_nodes_layer": 0, "-out_streams_layer": 1}
            for i, a in enumerate(args):
                if i and args[i - 1] == "-out":
                    args[i] = "again_" + a
                elif i and args[i - 1] in layers and self.chain.layers[outs[layers[args[i - 1]]]][0].split(".")[-1] in ("shp", "csv", "geojson"):
                    args[i] = "again_" + a
            ls = {a: ("again_" + self.chain.layers[a][0], ("again_" if self.chain.layers[a][0].split(".")[-1] in ("shp", "csv", "geojson") else "") + self.chain.layers[a][1]) for a in outs}
        before = snapshot(self.work)
        cwd = os.getcwd()
        os.chdir(self.work)
        try:
            run_ok(*args)
        finally:
            os.chdir(cwd)
        after = snapshot(self.work)
        for f in before:
            require(before[f] == after.get(f), "repeating %s into other files changed %s", x, f)
        for a in outs:
            if a.endswith(".tif"):
                os.replace(os.path.join(self.work, keep[a]), os.path.join(self.work, a))
                got = self.chain.describe(self.work, a)
            else:
                old = self.chain.layers[a]
                self.chain.layers[a] = ls[a]
                try:
                    got = self.chain.describe(self.work, a)
                finally:
                    self.chain.layers[a] = old
            require(got == self.desc[s][a], "repeating %s gives another %s: %s", x, a, differ(got, self.desc[s][a]))
        return 1


    def inplace(self, s, x):
        """Step x once more with the same outputs: may be refused, but leaves the results of all other steps alone"""
        self.prepare(self.state(s))
        cwd = os.getcwd()
        os.chdir(self.work)
        try:
            code = cli(*self.chain.steps[x][1])[0]
        finally:
            os.chdir(cwd)
        for a, v in self.desc[s].items():
            if a in self.chain.steps[x][2]:
                continue
            try:
                got = self.chain.describe(self.work, a)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                raise Problem("repeating %s into the same outputs (exit code %r) damages %s: %s" % (x, code, a, str(e)[:200]))
            require(got == v, "repeating %s into the same outputs (exit code %r) changes %s: %s", x, code, a, differ(got, v))
        return 1


def snapshot(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".gpkg-journal") or f.endswith("-wal") or f.endswith("-shm"):
            continue
        with open(os.path.join(d, f), "rb") as h:
            out[f] = hashlib.sha256(h.read()).hexdigest()
    return out


def differ(a, b):
    if a[0] == "layer" and b[0] == "layer":
        x, y = [q for q in a[1] if q not in b[1]], [q for q in b[1] if q not in a[1]]
        return "got %s instead of %s" % (" ".join(x[:2])[:300], " ".join(y[:2])[:300])
    return "got %r instead of %r" % (a[:4], b[:4])


# ---------------------------------------------------------------------------------------------------------------------
# comparison with complete

PAIRS = [("filled.tif", "filled.tif"), ("depths.tif", "bs_depths.tif"), ("flowdir.tif", "flowdir.tif"), ("accum.tif", "accum.tif"), ("bs.tif", "bluespots.tif"),
         ("ws.tif", "watersheds.tif"), ("fd.tif", "finaldepths.tif"), ("fb.tif", "finalbluespots.tif")]
LAYERS = ["pourpoints", "nodes", "streams", "initvolumes", "finalstate", "hypsometry", "finallevels", "finalbluespots", "bluespots", "watersheds"]


def number(x):
    if isinstance(x, bool) or x is None or x == "":
        return None
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def rounded(x):
    x = number(x)
    return float("%.8g" % x) if isinstance(x, float) else x


def flat(g):
    if isinstance(g, dict):
        return [g.get("type", "").replace("Multi", "")] + flat(g.get("coordinates"))
    if isinstance(g, (list, tuple)):
        return [y for x in g for y in flat(x)]
    return [] if g is None else [float("%.10g" % g)]


def keyed(fs):
    """Features in a fixed order, for comparison across formats"""
    out = []
    for f in fs:
        p = {k.lower()[:10]: rounded(v) for k, v in f["properties"].items()}
        g = flat(f.get("geometry"))
        if g and g[0] == "Polygon":
            g = ["Polygon"] + sorted(g[1:])     # rings may start anywhere
        out.append((p, g))
    return sorted(out, key=lambda q: (json.dumps([[k, v] for k, v in sorted(q[0].items()) if k in ("nodeid", "bspot_id")]), json.dumps(q[1])))


def near(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b


def compare_layers(got, want, what):
    a, b = keyed(got), keyed(want)
    require(len(a) == len(b), "%s: %d features, complete has %d", what, len(a), len(b))
    for (pa, ga), (pb, gb) in zip(a, b):
        require(set(pa) == set(pb), "%s: attributes %s, complete has %s", what, sorted(pa), sorted(pb))
        for k in pa:
            require(near(pa[k], pb[k]), "%s: %s is %r, complete has %r", what, k, pa[k], pb[k])
        require(len(ga) == len(gb) and all(near(x, y) for x, y in zip(ga, gb)), "%s: geometry %r, complete has %r", what, ga[:12], gb[:12])


def against_complete(states, opts, scenario, t):
    """t: suffix of the scenario's artifacts"""
    chain = states.chain
    full = frozenset(chain.order)
    d = states.state(full)
    states.prepare(None)
    work = states.work
    os.mkdir(os.path.join(work, "out"))
    kind, val = scenario.split(":")
    args = ["complete", "-dem", os.path.join(work, "dem.tif"), "-outdir", os.path.join(work, "out"), "-mm", val, "-zresolution", opts["zres"]]
    if opts.get("accum"):
        args.append("-accum")
    if opts.get("vector"):
        args.append("-vector")
    if opts.get("filter"):
        args += ["-filter", opts["filter"]]
    before = snapshot_files(work)
    run_ok(*args)
    require(before == snapshot_files(work), "complete changed its input")
    out = os.path.join(work, "out")
    n = 0
    dem = read_tif(os.path.join(work, "dem.tif"))[0].astype(np.float64)
    extent_same = True
    for mine, theirs in PAIRS:
        if mine in ("fd.tif", "fb.tif"):
            mine = mine[:2] + t + ".tif"
        if mine not in chain.outputs(full):
            require(theirs == "accum.tif" and not os.path.exists(os.path.join(out, theirs)), "complete wrote %s without being asked to", theirs)
            continue
        a, b = read_tif(os.path.join(d, mine)), read_tif(os.path.join(out, theirs))
        require(a[0].shape == b[0].shape, "%s has shape %r, %s of complete %r", mine, a[0].shape, theirs, b[0].shape)
        x, y = a[0].astype(np.float64), b[0].astype(np.float64)
        if theirs == "finaldepths.tif":     # levels may have been stored as text
            bad = np.abs(x - y) > 1e-6 * max(1.0, float(np.abs(dem).max()))
            shallow = np.maximum(x, y) <= 1e-6 * max(1.0, float(np.abs(dem).max()))
        elif theirs == "finalbluespots.tif":
            bad = (x != y) & ~shallow
            extent_same = bool((x == y).all())
        else:
            bad = x != y
        require(not bad.any(), "%s differs from %s of complete in %d cells", mine, theirs, int(bad.sum()))
        require(a[1] == b[1], "%s: geotransform %r, complete has %r", mine, a[1], b[1])
        require(bool(a[2]) == bool(b[2]), "%s: coordinate system %r, complete has %r", mine, a[2], b[2])
        n += 1
    gp = os.path.join(out, "malstroem.gpkg")
    names = set(layer_names(gp))
    for l in LAYERS:
        mine = l + t if l in ("initvolumes", "finalstate", "finallevels", "finalbluespots") else l
        if mine not in chain.outputs(full):
            require(l not in names, "complete wrote layer %s without being asked to", l)
            continue
        require(l in names, "complete wrote no layer %s", l)
        path, layer = chain.layers[mine]
        if l == "finalbluespots" and not extent_same:
            continue
        compare_layers(read_layer(os.path.join(d, path), layer), read_layer(gp, l), mine)
        n += 1
    return n


def snapshot_files(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


# ---------------------------------------------------------------------------------------------------------------------

A = np.array([[9, 9, 9, 9, 9, 9, 9],
              [9, 2, 9, 3, 5, 4, 9],
              [9, 2, 9, 1, 5, 2, 8],
              [9, 7, 9, 9, 6, 9, 9],
              [8, 3, 3, 5, 5, 1, 9],
              [9, 9, 9, 9, 9, 9, 9]], float)


def dems():
    yield "nested", A.astype(np.float32), None
    B = spaces.texture(9, 8, 5, 9).astype(np.int16)
    B[0, 0] = B[4, 3] = -5
    yield "nodata", B, -5
    yield "fraction", spaces.texture(8, 9, 11, 1000).astype(np.float64) * 0.0137 - 2, None
    yield "flat", np.full((4, 5), 3.5, np.float32), None
    yield "one", np.where(np.arange(30).reshape(5, 6) == 14, np.float32(1.25), np.float32(4.5)).astype(np.float32), -9999
    yield "plateau", np.pad(np.pad(np.array([[5, 5, 5], [5, 1, 5], [5, 5, 5], [5, 5, 5]]), 1, constant_values=7), 1, constant_values=5).astype(np.float32), None


FILTERS = [None, "maxdepth > 0.5 and (area > 4 or volume > 0.5)", "area > 100000"]


def inputs(dem, nodata, tr, crs):
    def put(d):
        write_tif(os.path.join(d, "dem.tif"), dem, tr, crs, nodata)
        for mm in (20, 7):
            write_tif(os.path.join(d, "rain%d.tif" % mm), np.full(dem.shape, mm, np.float32), tr, crs)
    return put


def explore(rec, opts, ixs, base=None, repeat=True):
    for i, (name, dem, nodata) in enumerate(dems()):
        if i not in ixs:
            continue
        chain = Chain(opts)
        tr = TRANSFORMS[:3][i % 3]
        root = rec.fresh()
        st = States(chain, root, inputs(dem, nodata, tr, WKT if i % 2 == 0 else ""))
        what = dict(dem=name, options=opts)
        b = set()
        for x in base or ():
            b |= chain.closure(x)
        for s in chain.ideals(b):
            for x in chain.enabled(s):
                rec.check(lambda: dict(what, done=sorted(s), step=x), st.step, s, x)
        full = frozenset(chain.order)
        if repeat:
            for x in chain.order:
                rec.check(lambda: dict(what, repeat=x), st.again, full, x)
                rec.check(lambda: dict(what, repeat=x, into="the same outputs"), st.inplace, full, x)
        for k, sc in enumerate(opts["scenarios"]):
            mm = sc if sc.startswith("mm") else "mm:" + sc.split(":")[1]
            rec.check(lambda: dict(what, complete=sc), against_complete, st, opts, mm, "" if k == 0 else str(k))
        shutil.rmtree(root)


def values(rec, ix, amounts, zs, sh, n):
    """The chain against complete for amounts of rain, bin widths and filter thresholds of all magnitudes, with few and many digits"""
    name, dem, nodata = list(dems())[ix]
    k = 0
    for j, mm in enumerate(amounts):
        for z in zs:
            k += 1
            if k % n != sh:
                continue
            f = (None, "maxdepth > 0.4999", "volume > 1.2345678 or area > 3.00001", "area >= 4.0 and maxdepth <= 123456.789")[k % 4]
            opts = dict(zres=z, scenarios=["mm:" + mm], filter=f, vector=k % 3 == 0, accum=k % 5 == 0, one=k % 2 == 0)
            root = rec.fresh()
            st = States(Chain(opts), root, inputs(dem, nodata, TRANSFORMS[k % 3], WKT))
            rec.check(dict(dem=name, mm=mm, zresolution=z, filter=f), against_complete, st, opts, "mm:" + mm, "")
            shutil.rmtree(root)


AMOUNTS = ["0", "0.000001", "0.004", "0.05", "0.1", "1", "3.333333333333333", "12.34567", "20.05", "99.99", "100.125", "333.3333", "1000.0001", "12345.678", "1e6", "123456789.123"]
ZS = [0.1, 0.003, 0.25, 1 / 3.0, 0.0625, 1, 2.5, 10]


def orders(rec, opts, ix):
    """Whole chains executed from scratch in very different orders"""
    name, dem, nodata = list(dems())[ix]
    chain = Chain(opts)
    root = rec.fresh()
    st = States(chain, root, inputs(dem, nodata, TRANSFORMS[1], WKT))
    full = frozenset(chain.order)

    def run(seq):
        st.state(full)
        st.prepare(None)
        cwd = os.getcwd()
        os.chdir(st.work)
        try:
            for x in seq:
                run_ok(*chain.steps[x][1])
        finally:
            os.chdir(cwd)
        for a, v in st.desc[full].items():
            got = chain.describe(st.work, a)
            require(got == v, "%s differs after the order %s: %s", a, seq, differ(got, v))
        return len(seq)
    for k in range(24):
        seq, s = [], frozenset()
        while len(s) < len(chain.order):
            e = chain.enabled(s)
            x = e[0] if k == 0 else e[-1] if k == 1 else e[(k * 7 + len(s) * (k + 1)) % len(e)]
            seq.append(x)
            s |= {x}
        rec.check(lambda: dict(dem=name, order=seq), run, seq)
    shutil.rmtree(root)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    F = FILTERS
    small = dict(zres=0.1, scenarios=["mm:20"])
    # the chain of the documentation, one datasource
    J.add("chain", explore, dict(small, accum=True, filter=F[1]), [0, 2] if T else [0])
    J.add("chain-dem", explore, dict(small, accum=False, filter=None), [0, 1, 2, 3, 4, 5] if T else [1])
    J.add("chain-files", explore, dict(small, accum=False, filter=F[1], one=False), [2, 1, 0] if T else [2])
    J.add("raster-steps", explore, dict(small, accum=True, vector=True, filter=F[1], one=False), [5], ["network", "fpolys"])
    for ix in (1, 0, 2):
        three = T or ix == 1
        J.add("scenarios-%d" % ix, explore, dict(zres=0.1, scenarios=["mm:20", "mm:300.5"] + (["pr:7" if ix != 1 else "pr:20"] if three else []), filter=None), [ix], ["network", "hyps"])
    for ix in range(6):
        for k, f in enumerate(F):
            J.add("late-%d-%d" % (k, ix), explore, dict(small, accum=True, vector=True, filter=f, zres=(0.1, 0.5, 0.01)[k]), [ix], ["accum", "network"])
            J.add("late-files-%d-%d" % (k, ix), explore, dict(small, accum=k == 1, vector=True, filter=f, one=False), [ix], ["network"])
    for ix in (0, 1, 2):
        J.add("scenarios-files-%d" % ix, explore, dict(zres=0.1, scenarios=["mm:300.5", "pr:20"], filter=None, one=False), [ix], ["network", "hyps"])
        J.add("orders-%d" % ix, orders, dict(zres=0.2, scenarios=["mm:20"], accum=ix != 1, vector=True, filter=F[ix]), ix)
    for ix in ((0, 1, 2, 3, 4, 5) if T else (0, 2)):
        J.add("values-%d" % ix, values, ix, AMOUNTS, ZS if T else ZS[:4] if ix else ZS[:2], SH, NS, n=8)
    if T:
        for one in (True, False):
            for acc in (True, False):
                J.add("whole-%d%d" % (one, acc), explore, dict(small, accum=acc, vector=True, filter=None, one=one), [0])
                J.add("whole-n%d%d" % (one, acc), explore, dict(small, accum=acc, vector=True, filter=F[1], one=one), [1])
    return J
