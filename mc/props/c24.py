"""C24: inputs which are missing, unreadable or do not fit together are refused, and nothing is changed."""
import itertools
import os
import shutil

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, MemRaster, MemVector, Scratch, cli, run_ok, write_tif, read_tif, read_layer, layer_names, use, pipeline
from .c19 import WKT, snapshot

BOUNDS = ("every library function and tool combining rasters x every pair of different shapes from 1x1..3x3 (4x4) x which of the rasters has the other shape, native and Python; every subcommand and complete x every input argument x every "
          "way of being wrong (other rows, columns, both, transposed, single row; cells of other sizes where they matter; missing, empty, damaged, a directory, a datasource of another kind, other layer, missing attribute), every required option left out, every illegal value listed; "
          "all pairs of wrong arguments of a command")
ASSUMPTIONS = ["georeferences of rasters with equal dimensions are not judged, but for the size of cells given to hyps and complete", "options given twice are not explored"]


def refused(fn, outs, ins, what):
    """fn must raise, write nothing and leave its inputs alone"""
    before = [a.copy() for a in ins]
    try:
        r = fn()
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception:
        r = None
    else:
        raise Problem("%s is accepted and gives %s" % (what, repr(r)[:200]))
    for o in outs:
        require(not o.written, "%s is refused after an output has been written", what)
    for a, b in zip(ins, before):
        require(a.shape == b.shape and ((a == b) | (a != a)).all(), "%s is refused after an input has been changed", what)
    return 1


def valid(shape):
    """Rasters which fit together"""
    dem = (spaces.texture(shape[0], shape[1], 3, 5) + 1.0).astype(np.float32)
    n = dem.size
    lab = np.zeros(shape, np.int32)
    lab.ravel()[n // 2] = 1
    lab.ravel()[-1] = 1
    fd = np.full(shape, 0, np.uint8)
    return dict(dem=dem, lab=lab, dep=np.where(lab > 0, np.float32(0.5), np.float32(0)), fd=fd, acc=np.ones(shape), ws=lab.copy())


def cell(a, v):
    return tuple(int(x) for x in np.argwhere(a == v)[0]) if (a == v).any() else (0, 0)


def operations():
    """name -> (names of rasters, function of the rasters returning (call, outputs))"""
    from malstroem import approx, bluespots, hyps, rain, streams
    from malstroem.algorithms import flow, label, net

    def pps(lab):
        return [dict(type="Feature", geometry=dict(type="Point", coordinates=[0, 0]),
                     properties=dict(bspot_id=i, cell_row=cell(lab, i)[0], cell_col=cell(lab, i)[1], bspot_area=1.0, bspot_vol=1.0, bspot_dmax=1.0, wshed_area=1.0)) for i in (0, 1)]

    def levels():
        return [dict(type="Feature", geometry=None, properties=dict(nodetype="pourpoint", nodeid=i, bspot_id=i, approx_z=2.5, approx_dmax=0.5)) for i in (0, 1)]

    def nodes():
        return [dict(type="Feature", geometry=dict(type="Point", coordinates=[0, 0]), properties=dict(nodeid=i, nodetype="pourpoint", bspot_id=i, wshed_area=1.0)) for i in (0, 1)]

    def plain(f):
        return lambda *a: (lambda: f(*a), [])

    def bs(use_accum):
        def make(dep, fd, ground):
            o = MemRaster(np.zeros((1, 1))), MemVector(), MemRaster(np.zeros((1, 1)))
            return (lambda: bluespots.BluespotTool(input_depths=MemRaster(dep), input_flowdir=MemRaster(fd), input_bluespot_filter_function=None, input_accum=MemRaster(ground) if use_accum else None,
                                                   input_dem=None if use_accum else MemRaster(ground), output_labeled_raster=o[0], output_labeled_vector=None, output_pourpoints=o[1],
                                                   output_watersheds_raster=o[2], output_watersheds_vector=None).process()), o[1:2]
        return make

    def stream(geom):
        def make(lab, fd):
            o = MemVector(), MemVector()
            return (lambda: streams.StreamTool(MemVector(pps(lab)), MemRaster(lab), MemRaster(fd), o[0], o[1] if geom else None).process()), o
        return make

    def pr(lab, water):
        o = MemVector()
        return (lambda: rain.RasterVolumeTool(MemVector(nodes()), MemRaster(lab), MemRaster(water), rain.Unit.mm, o, "inputv").process()), [o]

    def hy(lab, dem):
        o = MemVector()
        return (lambda: hyps.bluespot_hypsometry_io(MemRaster(lab), MemRaster(dem), MemVector(pps(lab)), 0.5, o)), [o]

    def ap(lab, dem):
        o = MemRaster(), MemRaster()
        return (lambda: approx.approx_bluespots_io(MemRaster(lab), MemVector(levels()), MemRaster(dem), o[0], o[1])), o

    out = {}
    for n in ("label_stats", "label_min_index", "label_max_index", "label_data"):
        out[n] = (("dem", "lab"), plain(lambda d, l, n=n: getattr(label, n)(d, l)))
        out[n + "-float64"] = (("acc", "lab"), plain(lambda d, l, n=n: getattr(label, n)(d, l)))
        out[n + "-other"] = (("dem", "lab"), plain(lambda d, l, n=n: getattr(label, n)(d.astype(np.int16), l.astype(np.uint8))))
    out["watersheds"] = (("fd", "lab"), plain(lambda f, l: flow.watersheds_from_labels(f, l, 0)))
    out["watersheds-int64"] = (("fd", "lab"), plain(lambda f, l: flow.watersheds_from_labels(f, l.astype(np.int64), 0)))
    out["pourpoint_network"] = (("fd", "lab"), plain(lambda f, l: net.pourpoint_network(f, l, [cell(l, 0), cell(l, 1)], 0)))
    out["geometric_pourpoint_network"] = (("fd", "lab"), plain(lambda f, l: net.geometric_pourpoint_network(f, l, [cell(l, 0), cell(l, 1)], 0)))
    out["approx_bluespots"] = (("lab", "dem"), plain(lambda l, d: approx.approx_bluespots(l, {0: -999.0, 1: 2.5}, d)))
    out["BluespotTool-dem"] = (("dep", "fd", "dem"), bs(False))
    out["BluespotTool-accum"] = (("dep", "fd", "acc"), bs(True))
    out["StreamTool"] = (("lab", "fd"), stream(True))
    out["StreamTool-nodes"] = (("lab", "fd"), stream(False))
    out["RasterVolumeTool"] = (("lab", "dem"), pr)
    out["hypsometry"] = (("lab", "dem"), hy)
    out["approx_bluespots_io"] = (("lab", "dem"), ap)
    return out


def mismatch(name, shapes, native):
    use(native)
    names, make = operations()[name]
    rs = [valid(s)[n] for n, s in zip(names, shapes)]
    if name.startswith("BluespotTool"):
        rs[0] = np.full(shapes[0], 0.5, np.float32)
        rs[0].ravel()[0] = 0
    call, outs = make(*rs)
    return refused(call, outs, rs, "%s with rasters of shapes %s" % (name, ", ".join("%s %dx%d" % (n, s[0], s[1]) for n, s in zip(names, shapes))))


def accepted(name, shape, native):
    """The same calls with rasters which fit"""
    use(native)
    names, make = operations()[name]
    rs = [valid(shape)[n] for n in names]
    if name.startswith("BluespotTool"):
        rs[0] = np.full(shape, 0.5, np.float32)
        rs[0].ravel()[0] = 0
    call, outs = make(*rs)
    call()
    return 1


def functions(rec, native, m, sh, n):
    shapes = list(itertools.product(range(1, m + 1), repeat=2))
    k = 0
    for name, (names, _) in operations().items():
        for s in shapes:
            if s[0] * s[1] >= 2 and (min(s) > 1 or name != "BluespotTool-dem"):
                k += 1
                if k % n == sh:
                    rec.check(lambda: dict(operation=name, shape=s, native=native), accepted, name, s, native)
        for a, b in itertools.permutations(shapes, 2):
            if a[0] * a[1] < 2 or b[0] * b[1] < 2:
                continue
            for odd in range(len(names)):
                k += 1
                if k % n == sh:
                    ss = [b if i == odd else a for i in range(len(names))]
                    rec.check(lambda: dict(operation=name, shapes=dict(zip(names, ss)), native=native), mismatch, name, ss, native)


# ---------------------------------------------------------------------------------------------- commands
DEM = np.array([[9, 9, 9, 9, 9, 9, 9, 9], [9, 8, 8, 8, 8, 8, 8, 9], [9, 8, 5, 5, 8, 6, 8, 9], [9, 8, 7, 7, 8, 6, 8, 9], [9, 9, 7.5, 9, 9, 9, 8, 9], [9, 9, 9, 9, 9, 9, 9, 9]], np.float32)
G = ["-format", "gpkg"]
STEPS = [
    ["filled", "-dem", "dem.tif", "-out", "filled.tif"],
    ["depths", "-dem", "dem.tif", "-filled", "filled.tif", "-out", "depths.tif"],
    ["flowdir", "-dem", "dem.tif", "-out", "flowdir.tif"],
    ["accum", "-flowdir", "flowdir.tif", "-out", "accum.tif"],
    ["bspots", "-depths", "depths.tif", "-out", "bs.tif", "-filter", "area > 1"],
    ["wsheds", "-bluespots", "bs.tif", "-flowdir", "flowdir.tif", "-out", "ws.tif"],
    ["pourpts", "-bluespots", "bs.tif", "-depths", "depths.tif", "-watersheds", "ws.tif", "-dem", "dem.tif", "-out", "r.gpkg", "-layername", "pourpoints"] + G,
    ["hyps", "-bluespots", "bs.tif", "-dem", "dem.tif", "-pourpoints", "r.gpkg", "-pourpoints_layer", "pourpoints", "-zresolution", "0.1", "-out", "r.gpkg", "-out_hyps_layer", "hyps"] + G,
    ["network", "-bluespots", "bs.tif", "-flowdir", "flowdir.tif", "-pourpoints", "r.gpkg", "-pourpoints_layer", "pourpoints", "-out", "r.gpkg", "-out_nodes_layer", "nodes", "-out_streams_layer", "streams"] + G,
    ["initvolumes", "-nodes", "r.gpkg", "-nodes_layer", "nodes", "-mm", "20", "-out", "r.gpkg", "-out_layer", "initvolumes"] + G,
    ["finalvolumes", "-inputvolumes", "r.gpkg", "-inputvolumes_layer", "initvolumes", "-a", "inputv", "-out", "r.gpkg", "-out_layer", "finalvolumes"] + G,
    ["finallevels", "-finalvols", "r.gpkg", "-finalvols_layer", "finalvolumes", "-hyps", "r.gpkg", "-hyps_layer", "hyps", "-out", "r.gpkg", "-out_layer", "finallevels"] + G,
    ["finalbluespots", "-bluespots", "bs.tif", "-dem", "dem.tif", "-finallevels", "r.gpkg", "-finallevels_layer", "finallevels", "-out_depths", "fd.tif", "-out_bluespots", "fb.tif"],
    ["polys", "-raster", "fb.tif", "-out", "r.gpkg", "-layername", "polys"] + G,
]
BY = {s[0]: s for s in STEPS}
CALLS = dict(BY)
CALLS["pourpts-accum"] = ["-accum" if x == "-dem" else "accum.tif" if x == "dem.tif" else x for x in BY["pourpts"]]
CALLS["initvolumes-pr"] = ["initvolumes", "-nodes", "r.gpkg", "-nodes_layer", "nodes", "-pr", "rain.tif", "-bluespots", "ws.tif", "-out", "r.gpkg", "-out_layer", "initvolumes"] + G
CALLS["complete"] = ["complete", "-dem", "dem.tif", "-outdir", "outdir", "-mm", "20", "-zresolution", "0.1", "-filter", "area > 1"]
OUT = ("-out", "-out_depths", "-out_bluespots", "-outdir")
OUTLAYER = ("-out_layer", "-out_hyps_layer", "-out_nodes_layer", "-out_streams_layer")
INLAYER = ("-pourpoints_layer", "-nodes_layer", "-inputvolumes_layer", "-finalvols_layer", "-hyps_layer", "-finallevels_layer")
VARIANTS = {"rows": lambda a: np.pad(a, ((0, 3), (0, 0)), mode="edge"), "columns": lambda a: np.pad(a, ((0, 0), (0, 2)), mode="edge"), "both": lambda a: np.pad(a, ((0, 2), (0, 3)), mode="edge"),
            "fewer-rows": lambda a: a[:-2], "fewer-columns": lambda a: a[:, :-1], "transposed": lambda a: np.ascontiguousarray(a.T), "onerow": lambda a: a[:1], "onecolumn": lambda a: a[:, :1],
            "wider": lambda a: np.pad(a[:-1], ((0, 0), (0, 5)), mode="edge"), "taller": lambda a: np.pad(a[:, :-2], ((0, 6), (0, 0)), mode="edge"),
            "samesize": lambda a: np.ascontiguousarray(a.reshape(a.shape[0] // 2, -1))}
CELLS = {"cells-wide": (1.02, 1.0), "cells-high": (1.0, 1.02), "cells-half": (0.5, 1.0), "cells-coarse": (2.0, 2.0), "cells-fine": (0.999, 0.999)}
RASTERS = ("dem", "filled", "depths", "flowdir", "accum", "bs", "ws", "fb", "rain")


def prepare(d):
    cwd = os.getcwd()
    os.chdir(d)
    try:
        write_tif("dem.tif", DEM, crs=WKT)
        write_tif("rain.tif", np.arange(48.).reshape(6, 8).astype(np.float32), crs=WKT)
        os.mkdir("outdir")
        for s in STEPS:
            run_ok(*s)
        for r in RASTERS:
            a, tr, crs, nd = read_tif(r + ".tif")
            for v, f in VARIANTS.items():
                write_tif("%s~%s.tif" % (r, v), f(a), tr, crs, nd)
            for v, (x, y) in CELLS.items():
                write_tif("%s~%s.tif" % (r, v), a, (tr[0], tr[1] * x, 0.0, tr[3], 0.0, tr[5] * y), crs, nd)
            data = open(r + ".tif", "rb").read()
            with open("%s~cut.tif" % r, "wb") as f:
                f.write(data[:len(data) // 2])
        for n, c in (("empty.tif", b""), ("text.tif", b"no raster" * 50), ("empty.gpkg", b""), ("text.gpkg", b"no database" * 50), ("broken.geojson", b'{"type": "FeatureColl')):
            with open(n, "wb") as f:
                f.write(c)
        data = open("r.gpkg", "rb").read()
        with open("cut.gpkg", "wb") as f:
            f.write(data[:len(data) // 3])
        os.mkdir("dir.tif")
        os.mkdir("full")
        open("full/keep.txt", "w").close()
    finally:
        os.chdir(cwd)


_base = {}


def base():
    """Directory with the outputs of all steps and all kinds of wrong files, made once per process"""
    if "s" not in _base:
        s = Scratch()
        prepare(s.d)
        _base["s"] = s
    return _base["s"].d


def wrong(call):
    """[(what, kind, arguments)]: every single mistake in a call. kind: input, output"""
    args = CALLS[call]
    n = sum(1 for a in args if a.endswith(".tif") and not args[args.index(a) - 1].startswith("-out"))
    out = []
    for i in range(1, len(args), 2):
        k, a = args[i], args[i + 1]

        def put(v, kind="input"):
            out.append(("%s %s" % (k, v), kind, {i + 1: v}))
        if k in OUT:
            if k == "-outdir":
                put("missing", "input")
                put("full", "input")
                put("dem.tif", "input")
            else:
                put("missing/x" + os.path.splitext(a)[1], "output")
                put("dir.tif", "output")
        elif k in OUTLAYER or k == "-layername":
            pass
        elif a.endswith(".tif"):
            r = a[:-4]
            if n > 1:
                for v in VARIANTS:
                    put("%s~%s.tif" % (r, v))
            if args[0] == "hyps":
                for v in CELLS:
                    put("%s~%s.tif" % (r, v))       # counts are those of cells of one size
            if args[0] == "complete":
                for v in ("cells-wide", "cells-high", "cells-half"):
                    put("%s~%s.tif" % (r, v))       # cells must be square
            for v in ("missing.tif", "empty.tif", "text.tif", "dir.tif"):
                put(v)
        elif a.endswith(".gpkg"):
            for v in ("missing.gpkg", "empty.gpkg", "text.gpkg", "cut.gpkg", "dir.tif", "dem.tif", "broken.geojson"):
                put(v)
        elif k in INLAYER:
            put("nosuchlayer")
            for other in {"-pourpoints_layer": ("polys",), "-nodes_layer": ("polys",), "-inputvolumes_layer": ("pourpoints", "nodes", "hyps", "polys"),
                          "-finalvols_layer": ("pourpoints", "initvolumes", "hyps", "polys"), "-hyps_layer": ("nodes", "pourpoints", "polys"), "-finallevels_layer": ("nodes", "finalvolumes", "pourpoints")}[k]:
                put(other)
        elif k == "-zresolution":
            for v in ("0", "-0.1", "nan", "x", "inf"):
                put(v)
        elif k == "-mm":
            put("x")
        elif k == "-filter":
            for v in ("area >", "foo > 1", "area > 1 and", "__import__('os')", "area = 1", "(area > 1"):
                put(v)
        elif k == "-a":
            put("nosuchattribute")
        if k in ("-dem", "-filled", "-depths", "-flowdir", "-bluespots", "-watersheds", "-accum", "-pourpoints", "-zresolution", "-nodes", "-mm", "-inputvolumes", "-finalvols", "-hyps", "-finallevels",
                 "-raster", "-pr", "-outdir") or (k == "-out"):
            out.append(("without %s" % k, "input", {i: None, i + 1: None}))
    if call == "initvolumes":
        out.append(("-mm together with -pr", "input", {len(args): "-pr", len(args) + 1: "rain.tif", len(args) + 2: "-bluespots", len(args) + 3: "ws.tif"}))
        out.append(("-mm 0 together with -pr", "input", {args.index("20"): "0", len(args): "-pr", len(args) + 1: "rain.tif", len(args) + 2: "-bluespots", len(args) + 3: "ws.tif"}))
    if call == "finalbluespots":
        i = args.index("-out_depths")
        out.append(("without outputs", "input", {i: None, i + 1: None, i + 2: None, i + 3: None}))
    out.append(("unknown option", "input", {len(args): "-nonsense", len(args) + 1: "1"}))
    return out


def build(call, changes):
    args = dict(enumerate(CALLS[call]))
    args.update(changes)
    out = [args[i] for i in sorted(args) if args[i] is not None]
    # outputs which do not exist yet
    made = []
    for i in range(1, len(out) - 1):
        k, a = out[i], out[i + 1]
        if k in OUT and a.endswith(".tif") and "/" not in a and a != "dir.tif" and a != "dem.tif":
            out[i + 1] = "new_" + a
            made.append(("raster", "new_" + a))
        elif k in OUTLAYER or k == "-layername":
            out[i + 1] = "new_" + a
            made.append(("layer", "new_" + a))
    return out, made


def layers(d):
    p = os.path.join(d, "r.gpkg")
    return {n: read_layer(p, n) for n in layer_names(p)}


def call(name, what, kinds, changes, good=False):
    with Scratch() as s:
        d = s("w")
        shutil.copytree(base(), d)
        args, made = build(name, changes)
        before, lay = files(d), layers(d)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            code, exc = cli(*args)
        finally:
            os.chdir(cwd)
        if good:
            require(code == 0, "%s fails: %r", name, exc)
        else:
            require(code != 0, "%s is accepted: exit code 0", what)
            if isinstance(exc, MemoryError):
                raise exc
        after = files(d)
        for f in before:
            require(f in after, "%s removes %s", what, f)
            if f != "r.gpkg" and not (good and f.startswith("outdir")):
                require(after[f] == before[f], "%s changes %s", what, f)
        now = layers(d)
        for n, fs in lay.items():
            require(n in now and now[n] == fs, "%s changes layer %s", what, n)
        if not good and "output" not in kinds:
            for kind, n in made:
                if kind == "layer":
                    require(not now.get(n), "%s is refused but layer %s is written", what, n)
                else:
                    ok = False
                    if os.path.exists(os.path.join(d, n)):
                        try:
                            read_tif(os.path.join(d, n))
                            ok = True
                        except Exception:
                            pass
                    require(not ok, "%s is refused but %s is written", what, n)
    return 1, (code, type(exc).__name__)


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith(("-journal", "-wal", "-shm")):
                with open(os.path.join(p, f), "rb") as h:
                    out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def singles(rec, sh, n):
    k = 0
    for name in CALLS:
        k += 1
        if k % n == sh:
            rec.check(dict(call=name, mistake=None), call, name, "%s with good arguments" % name, (), {}, True)
        for what, kind, ch in wrong(name):
            k += 1
            if k % n == sh:
                rec.check(lambda: dict(call=name, mistake=what), call, name, "%s %s" % (name, what), (kind,), ch)
    _done()


def zero(rec):
    """0 mm is an amount of rain"""
    rec.check(dict(call="initvolumes", mm=0), call, "initvolumes", "initvolumes -mm 0", (), {CALLS["initvolumes"].index("20"): "0"}, True)
    rec.check(dict(call="complete", mm=0), call, "complete", "complete -mm 0", (), {CALLS["complete"].index("20"): "0"}, True)
    _done()


def pairs(rec, sh, n, step):
    k = 0
    for name in CALLS:
        w = [x for x in wrong(name) if "~" not in x[0]]
        for (wa, ka, ca), (wb, kb, cb) in itertools.combinations(w, 2):
            if set(ca) & set(cb):
                continue
            k += 1
            if k % n != sh or (k // n) % step:
                continue
            ch = dict(ca)
            ch.update(cb)
            rec.check(lambda: dict(call=name, mistakes=[wa, wb]), call, name, "%s %s and %s" % (name, wa, wb), (ka, kb), ch)
    _done()


def _done():
    s = _base.pop("s", None)
    if s:
        shutil.rmtree(s.d, ignore_errors=True)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for nat in (True, False):
        J.add("functions-%s" % nat, functions, nat, 4 if T else 3, SH, NS, n=4)
    J.add("zero", zero)
    J.add("singles", singles, SH, NS, n=8)
    J.add("pairs", pairs, SH, NS, 1 if T else 8, n=16 if T else 8)
    return J
