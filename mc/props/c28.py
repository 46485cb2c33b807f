"""C28: calls do not influence each other.

A state is the history of calls in a process. Every operation (library function, tool, reader, writer, command, switch of the speedups, also with input which makes it fail) is executed after
every history up to a bound, in a process of its own, and has to give what it gives in a fresh process, and leave all inputs as they were.
"""
import hashlib
import os
import pickle
import shutil
import signal
import tempfile

import numpy as np

from ..core import require, Problem
from ..util import Jobs, SH, NS, MemRaster, MemVector, write_tif, read_tif, read_layer, layer_names, TRANSFORMS
from . import c19

BOUNDS = ("all histories of two operations out of 104 (library functions, tools made anew and used again, readers and writers, commands, switches of the speedups, failing calls), those of three operations in steps; "
          "one history in which each operation follows each other one; shared inputs and objects; all pairs of 24 array functions and tools called with the same arrays whose contents change in between; "
          "all histories of up to six (eight) calls on a network which grows and changes between events")
ASSUMPTIONS = ["terrain without equally steep directions", "number types of results are not compared (C18)"]

COMMANDS = ("run_", "bad_", "complete")


def canon(x):
    """Comparable contents"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return tuple((n, canon(x[n])) for n in x.dtype.names)
        return ("array", x.shape, hashlib.sha1(np.ascontiguousarray(x, np.float64).tobytes()).hexdigest(), repr(x.ravel()[:40].tolist()))
    if isinstance(x, np.void):
        return tuple((n, canon(x[n])) for n in x.dtype.names)
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, (bool, int)):
        return float(x)
    if isinstance(x, float) or x is None or isinstance(x, str):
        return repr(x) if x != x else x
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(canon(v)) for v in x))
    return tuple(canon(v) for v in x)


def dem_of(k):
    r = np.random.RandomState(k)        # fixed data, not sampling: distinct values without equal slopes
    R, C = ((9, 11), (7, 8))[k]
    z = r.permutation(R * C).reshape(R, C) * 0.37
    return (z + r.rand(R, C) * 0.01).astype(np.float32)


class Context(object):
    def __init__(self, root):
        self.root = root
        self.n = 0
        self.made = {}
        self.keep = {}

    def prepare(self):
        """Inputs of the operations: derived ones are made in another process"""
        self.chain = c19.Chain(dict(one=False, zres=0.25, vector=True, accum=True, filter="maxdepth > 0.3", scenarios=["mm:15", "pr:0"]))
        self.base = os.path.join(self.root, "base")
        os.mkdir(self.base)
        self.dems = [dem_of(0), dem_of(1)]
        t = TRANSFORMS[1]
        write_tif(os.path.join(self.base, "dem.tif"), self.dems[0], t, c19.WKT)
        write_tif(os.path.join(self.base, "rain0.tif"), (dem_of(0) * 3).astype(np.float32), t, c19.WKT)
        write_tif(os.path.join(self.base, "small.tif"), np.ones((3, 4), np.float32), t, c19.WKT)

        def derive():
            from ..util import pipeline, run_ok
            from malstroem.algorithms import label, flow
            out = []
            for d in self.dems:
                p = pipeline(d, True)
                lab, n = label.connected_components(p["depths"])
                w = lab.copy()
                flow.watersheds_from_labels(p["flowdir"], w, 0)
                p.update(lab=lab, n=n, ws=w)
                out.append(p)
            os.chdir(self.base)
            for x in self.chain.order:
                run_ok(*self.chain.steps[x][1])
            fs = {}
            for name in ("pourpoints", "nodes", "initvolumes", "finalstate", "hypsometry", "finallevels"):
                fs[name] = read_layer(*(os.path.join(self.base, self.chain.layers[name][0]), self.chain.layers[name][1]))
            return out, fs
        self.data, self.features = apart(derive)
        for p in self.data:
            for k, v in p.items():
                if isinstance(v, np.ndarray):
                    v.setflags(write=True)
        self.t = t
        # a network without rasters
        self.nodes = [dict(nodeid=i, dstrnodeid=d, wshed_area=10.0 + i, bspot_vol=b, a=0.5 * i, b=3.0 - i) for i, d, b in ((0, None, 0.0), (1, 3, 1.5), (2, 3, 0.0), (3, 0, 2.25), (4, 1, 0.5))]
        self.cells = [(1, 1), (3, 4), (5, 2)]
        self.values = [1.5, 2.5, 3.5]
        self.keepers = [True] * (self.data[0]["n"] + 1)
        self.pointfeatures = [dict(type="Feature", geometry=dict(type="Point", coordinates=[i, -i]), properties=dict(a=i, b="x%d" % i, c=0.1 * i)) for i in range(4)]

    def inputs(self):
        """What no operation may change"""
        h = hashlib.sha1()
        for p in self.data:
            for k in sorted(p):
                h.update(np.ascontiguousarray(p[k]).tobytes())
        for d in self.dems:
            h.update(d.tobytes())
        h.update(repr((self.features, self.nodes, self.cells, self.values, self.pointfeatures)).encode())
        return h.hexdigest()

    def dir(self):
        self.n += 1
        d = os.path.join(self.root, "p%d_%d" % (os.getpid(), self.n))
        os.mkdir(d)
        return d

    def shared(self, name, factory):
        if name not in self.made:
            self.made[name] = factory()
        return self.made[name]


def apart(fn, *args, **kw):
    """Result of a function executed in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(kw.get("timeout", 120))
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            b = pickle.dumps(fn(*args))
            with os.fdopen(w, "wb") as f:
                f.write(b)
            code = 0
        except BaseException as e:
            try:
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(Failed("%s: %s" % (type(e).__name__, str(e)[:500]))))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    st = os.waitpid(pid, 0)[1]
    require(st == 0 and b, "process ended with status %r", st)
    x = pickle.loads(b)
    if isinstance(x, Failed):
        raise Problem(x.args[0])
    return x


class Failed(Exception):
    pass


def operations():
    """name -> function of the context"""
    O = {}

    def op(f):
        O[f.__name__] = f
        return f

    def both(f):
        O[f.__name__ + "A"] = lambda c: f(c, c.data[0])
        O[f.__name__ + "B"] = lambda c: f(c, c.data[1])
        return f

    from malstroem.algorithms import fill, flow, label, net, speedups
    from malstroem import io, approx, bluespots, dem, hyps, network, rain, streams, vector

    # ---- library functions
    @both
    def fill_terrain(c, p):
        return fill.fill_terrain(p["dem"])

    @both
    def noflats(c, p):
        return fill.fill_terrain_no_flats(p["dem"], p["short"], p["diag"])

    @both
    def increments(c, p):
        return fill.minimum_safe_short_and_diag(p["dem"])

    @both
    def flowdirection(c, p):
        return flow.terrain_flowdirection(p["noflats"])

    @op
    def flowdirection_noedges(c):
        return flow.terrain_flowdirection(c.data[0]["noflats"], edges_flow_outward=False)

    @both
    def accumulated(c, p):
        return flow.accumulated_flow(p["flowdir"])

    @both
    def watersheds(c, p):
        w = p["lab"].copy()
        flow.watersheds_from_labels(p["flowdir"], w, 0)
        return w

    @op
    def upstream(c):
        w = c.data[0]["lab"].copy()
        flow.assign_watersheds_upstream(c.data[0]["flowdir"], w, (4, 4), 0)
        return w, [sorted(flow.upstream_cells(c.data[0]["flowdir"], x)) for x in c.cells], [list(flow.trace_downstream(c.data[0]["flowdir"], x)) for x in c.cells]

    @both
    def components(c, p):
        return label.connected_components(p["depths"])

    @both
    def stats(c, p):
        return label.label_stats(p["depths"], p["lab"])

    @op
    def stats_given(c):
        p = c.data[0]
        return label.label_stats(p["dem"], p["ws"], p["n"] + 2)

    @both
    def minindex(c, p):
        return label.label_min_index(p["noflats"], p["lab"], p["n"]), label.label_max_index(p["accum"], p["lab"], p["n"])

    @op
    def countlabels(c):
        return label.label_count(c.data[0]["ws"]), [np.array(x) for x in label.label_data(c.data[0]["dem"], c.data[0]["lab"])]

    @op
    def keep(c):
        k = [i % 3 != 1 for i in range(c.data[0]["n"] + 1)]
        return label.keep_labels(c.data[0]["lab"], k)

    @op
    def setvalue(c):
        return label.set_label_to_value(c.data[0]["lab"], np.arange(c.data[0]["n"] + 1) * 1.5)

    def points(c, p):
        m = label.label_max_index(p["accum"], p["lab"], p["n"])
        return [(int(x["row"]), int(x["col"])) for x in m]

    @both
    def pourpointnet(c, p):
        return net.pourpoint_network(p["flowdir"], p["lab"], points(c, p), 0)

    @both
    def geometricnet(c, p):
        return net.geometric_pourpoint_network(p["flowdir"], p["lab"], points(c, p), 0)

    def rained(n, a):
        return sorted(n.rain_event(a), key=lambda e: e["nodeid"])

    def a_network(c):
        n = network.Network()
        n.add_nodes(c.nodes)
        return n

    @op
    def network_new(c):
        return rained(a_network(c), "a")

    @op
    def network_shared_a(c):
        return rained(c.shared("network", lambda: a_network(c)), "a")

    @op
    def network_shared_b(c):
        return rained(c.shared("network", lambda: a_network(c)), "b")

    @op
    def histogram(c):
        return [(s.zhistogram.counts if len(s.zhistogram.counts) else [], s.zhistogram.bins, s.zmin, s.zmax) for k, s in hyps.bluespot_hypsometry_stats(c.data[0]["lab"], c.data[0]["dem"], 0.5) if k]

    @op
    def approximate(c):
        p = c.data[0]
        lev = {i: 3.0 * i for i in range(p["n"] + 1)}
        return approx.approx_bluespots(p["lab"].copy(), lev, p["dem"])

    # ---- filters
    from malstroem.scripts._utils import parse_filter

    def filtered(text):
        f = parse_filter(text)
        return [bool(f(dict(max=m, sum=1.0, count=k, area=k * 2.0, volume=k * m, min=0))) for m in (0.1, 0.5, 2.0) for k in (1, 5, 100)]

    @op
    def filter_depth(c):
        return filtered("maxdepth > 0.4")

    @op
    def filter_both(c):
        return filtered("(area >= 10 and volume < 50) or maxdepth > 1")

    @op
    def filter_illegal(c):
        return filtered("area > x")

    @op
    def filter_shared(c):
        f = c.shared("filter", lambda: parse_filter("area > 3 and maxdepth < 1"))
        return [bool(f(dict(max=m, sum=1.0, count=k, area=k * 2.0, volume=k * m, min=0))) for m in (0.1, 2.0) for k in (1, 5)]

    # ---- speedups
    @op
    def disable(c):
        speedups.disable()
        return bool(speedups.enabled)

    @op
    def enable(c):
        speedups.enable()
        return bool(speedups.enabled)

    # ---- failing calls
    @op
    def fail_shapes(c):
        return label.label_stats(c.data[0]["dem"], c.data[1]["lab"])

    @op
    def fail_watersheds(c):
        return flow.watersheds_from_labels(c.data[0]["flowdir"], c.data[1]["lab"].copy(), 0)

    @op
    def fail_hyps(c):
        return list(hyps.bluespot_hypsometry_stats(c.data[0]["lab"], c.data[1]["dem"], 0.5))

    @op
    def fail_open(c):
        return io.RasterReader(os.path.join(c.root, "missing.tif"))

    @op
    def fail_layer(c):
        return io.VectorReader(os.path.join(c.base, c.chain.layers["nodes"][0]), "missing").read_geojson_features()

    @op
    def fail_create(c):
        io.VectorWriter("gpkg", os.path.join(c.root, "no", "dir.gpkg"), "x", None, 1, None).write_geojson_features(c.pointfeatures)

    @op
    def fail_features(c):
        d = c.dir()

        def gen():
            yield c.pointfeatures[0]
            raise ValueError("broken")
        try:
            io.VectorWriter("gpkg", os.path.join(d, "a.gpkg"), "x", None, 1, None).write_geojson_features(gen())
        finally:
            shutil.rmtree(d, True)

    @op
    def fail_node(c):
        n = network.Network()
        n.add_nodes(c.nodes)
        return n.rain_event("missing")

    # ---- readers and writers
    @op
    def raster_roundtrip(c):
        d = c.dir()
        f = os.path.join(d, "a.tif")
        io.RasterWriter(f, c.t, c19.WKT, -1.0).write(c.data[0]["dem"])
        r = io.RasterReader(f, -9.0)
        out = r.read(), r.transform, r.nodata, r.shape
        out += (bool(r.crs),)
        shutil.rmtree(d)
        return out

    @op
    def raster_types(c):
        d = c.dir()
        out = []
        for t in (np.uint8, np.int64, bool, np.float16, np.int16):
            f = os.path.join(d, "a%s.tif" % np.dtype(t).name)
            io.RasterWriter(f, c.t, None).write(c.data[0]["lab"].astype(t))
            out.append(io.RasterReader(f).read())
        shutil.rmtree(d)
        return out

    @op
    def raster_shared(c):
        r = c.shared("reader", lambda: io.RasterReader(os.path.join(c.base, "dem.tif"), -5))
        a = r.read()
        out = a.copy(), r.shape, r.resolution
        a[:] = 0        # what has been read belongs to the caller
        return out

    @op
    def vector_roundtrip(c):
        d = c.dir()
        f = os.path.join(d, "a.gpkg")
        io.VectorWriter("gpkg", f, "l", None, 1, c19.WKT).write_geojson_features(c.pointfeatures)
        io.VectorWriter("gpkg", f, "m", None, 1, None).write_geojson_features(dict(type="FeatureCollection", features=c.pointfeatures[1:]))
        out = [(x["geometry"], x["properties"]) for l in "lm" for x in io.VectorReader(f, l).read_geojson_features()]
        out = out, sorted(layer_names(f))
        shutil.rmtree(d)
        return out

    @op
    def vector_geojson(c):
        d = c.dir()
        f = os.path.join(d, "a.geojson")
        io.VectorWriter("geojson", f, "l", None, 1, None).write_geojson_features(iter(c.pointfeatures))
        out = [(x["geometry"], x["properties"]) for x in read_layer(f)]
        shutil.rmtree(d)
        return out

    @op
    def vector_options(c):
        """Creation options of one writer are not those of the next"""
        d = c.dir()
        f = os.path.join(d, "a.gpkg")
        io.VectorWriter("gpkg", f, "l", None, 1, None, [], ["FID=number"]).write_geojson_features(c.pointfeatures)
        io.VectorWriter("gpkg", f, "m", None, 1, None).write_geojson_features(c.pointfeatures)
        from osgeo import ogr
        ds = ogr.Open(f)
        out = [ds.GetLayerByName(n).GetFIDColumn() for n in "lm"]
        ds = None
        shutil.rmtree(d)
        return out

    @op
    def vector_shared(c):
        r = c.shared("vreader", lambda: io.VectorReader(os.path.join(c.base, c.chain.layers["nodes"][0]), "nodes"))
        fs = r.read_geojson_features()
        out = canon([x["properties"] for x in fs])
        for x in fs:
            x["properties"]["wshed_area"] = -1
        return out

    @op
    def vectorize(c):
        return sorted(repr(canon((x["geometry"], x["properties"]))) for x in vector.vectorize_labels_file(os.path.join(c.base, "bs.tif")))

    @op
    def vectorize_io(c):
        d = c.dir()
        f = os.path.join(d, "a.gpkg")
        vector.vectorize_labels_file_io(os.path.join(c.base, "ws.tif"), f, "l", "gpkg", quiet=True)
        out = sorted(repr(canon((x["geometry"], x["properties"]))) for x in read_layer(f, "l"))
        shutil.rmtree(d)
        return out

    # ---- tools, made anew and used again
    class Out(object):
        def __init__(self, filepath=None):
            self.w = []
            self.filepath = filepath

        def write(self, a):
            self.w.append(np.array(a))
            if self.filepath:
                write_tif(self.filepath, a, TRANSFORMS[1])

        def write_geojson_features(self, fs):
            if isinstance(fs, dict):
                fs = fs["features"]
            self.w.append([(f["geometry"], f["properties"]) for f in fs])

    def raster(c, a):
        return MemRaster(a, c.t)

    def layer(c, name):
        return MemVector(c.features[name])

    def tools():
        T = {}

        def tool(f):
            T[f.__name__] = f
        p = lambda c: c.data[0]

        @tool
        def dems(c, o):
            return dem.DemTool(raster(c, p(c)["dem"]), o[0], o[1], o[2], o[3])

        @tool
        def spots(c, o):
            return bluespots.BluespotTool(raster(c, p(c)["depths"]), raster(c, p(c)["flowdir"]), parse_filter("maxdepth > 0.3"), o[0], o[1], o[2], input_accum=raster(c, p(c)["accum"]))

        @tool
        def spots_dem(c, o):
            return bluespots.BluespotTool(raster(c, p(c)["depths"]), raster(c, p(c)["flowdir"]), None, o[0], o[1], o[2], input_dem=raster(c, p(c)["dem"]))

        @tool
        def stream(c, o):
            return streams.StreamTool(layer(c, "pourpoints"), raster(c, read_tif(os.path.join(c.base, "bs.tif"))[0]), raster(c, p(c)["flowdir"]), o[0], o[1])

        @tool
        def rainfall(c, o):
            return rain.SimpleVolumeTool(layer(c, "nodes"), o[0], "inputv", 12.5)

        @tool
        def rainraster(c, o):
            return rain.RasterVolumeTool(layer(c, "nodes"), raster(c, read_tif(os.path.join(c.base, "ws.tif"))[0]), raster(c, p(c)["dem"]), rain.Unit.l, o[0], "inputv")

        @tool
        def final(c, o):
            return network.FinalStateCalculator(layer(c, "initvolumes"), "inputv", o[0])

        class Call(object):
            def __init__(self, f, *a, **k):
                self.f = f, a, k

            def process(self):
                f, a, k = self.f
                f(*a, **k)

        @tool
        def hypsometry(c, o):
            return Call(hyps.bluespot_hypsometry_io, raster(c, read_tif(os.path.join(c.base, "bs.tif"))[0]), raster(c, p(c)["dem"]), layer(c, "pourpoints"), 0.25, o[0])

        @tool
        def levels(c, o):
            return Call(approx.approx_water_level_io, layer(c, "finalstate"), layer(c, "hypsometry"), o[0])

        @tool
        def spread(c, o):
            return Call(approx.approx_bluespots_io, raster(c, read_tif(os.path.join(c.base, "bs.tif"))[0]), layer(c, "finallevels"), raster(c, p(c)["dem"]), o[0], o[1])
        return T

    def process(c, make, again):
        def new():
            o = [Out() for _ in range(4)]
            return make(c, o), o
        t, o = c.shared("tool " + make.__name__, new) if again else new()
        n = [len(x.w) for x in o]
        t.process()
        return [x.w[k:] for x, k in zip(o, n)]

    for name, make in tools().items():
        O["tool_" + name] = lambda c, make=make: process(c, make, False)
        O["again_" + name] = lambda c, make=make: process(c, make, True)

    # ---- commands
    def command(args):
        from click.testing import CliRunner
        from malstroem.scripts.cli import cli as group
        import logging
        r = CliRunner().invoke(group, [str(a) for a in args])
        logging.disable(logging.CRITICAL)
        return r.exit_code

    def step(c, x):
        d = c.dir()
        here = os.getcwd()
        skip = set()
        for a in c.chain.steps[x][2]:
            skip.add(os.path.splitext(a if a.endswith(".tif") else c.chain.layers[a][0])[0])
        for f in os.listdir(c.base):
            if os.path.splitext(f)[0] not in skip:
                os.link(os.path.join(c.base, f), os.path.join(d, f))
        os.chdir(d)
        try:
            code = command(c.chain.steps[x][1])
            return code, [c.chain.describe(d, a) for a in c.chain.steps[x][2]] if code == 0 else None
        finally:
            os.chdir(here)
            shutil.rmtree(d)

    chain = c19.Chain(dict(one=False, zres=0.25, vector=True, accum=True, filter="maxdepth > 0.3", scenarios=["mm:15", "pr:0"]))
    for x in chain.order:
        O["run_" + x] = lambda c, x=x: step(c, x)

    def bad(name, *args):
        def run(c):
            d = c.dir()
            here = os.getcwd()
            os.chdir(d)
            try:
                code = command([a.replace("BASE", c.base) for a in args])
                return code != 0, os.listdir(d)
            finally:
                os.chdir(here)
                shutil.rmtree(d)
        O["bad_" + name] = run
    bad("filter", "bspots", "-depths", "BASE/depths.tif", "-out", "bs.tif", "-filter", "area > import")
    bad("missing", "filled", "-dem", "BASE/nothing.tif", "-out", "o.tif")
    bad("shape", "depths", "-dem", "BASE/dem.tif", "-filled", "BASE/small.tif", "-out", "o.tif")
    bad("option", "flowdir", "-dem", "BASE/dem.tif")
    bad("layer", "finalvolumes", "-inputvolumes", "BASE/net_ds.gpkg", "-inputvolumes_layer", "nope", "-out", "o.gpkg", "-format", "gpkg")
    bad("attribute", "finalvolumes", "-inputvolumes", "BASE/net_ds.gpkg", "-inputvolumes_layer", "nodes", "-out", "o.gpkg", "-format", "gpkg")
    bad("directory", "complete", "-dem", "BASE/dem.tif", "-mm", "10", "-zresolution", "0.1", "-outdir", "BASE")

    def complete(c, *more):
        d = c.dir()
        os.mkdir(os.path.join(d, "o"))
        try:
            code = command(["complete", "-dem", os.path.join(c.base, "dem.tif"), "-outdir", os.path.join(d, "o"), "-mm", "15", "-zresolution", "0.25"] + list(more))
            out = []
            for f in sorted(os.listdir(os.path.join(d, "o"))):
                f = os.path.join(d, "o", f)
                if f.endswith(".tif"):
                    out.append((os.path.basename(f), read_tif(f)[0]))
                elif f.endswith(".gpkg"):
                    out += [(l, sorted(repr(canon((x["geometry"], x["properties"]))) for x in read_layer(f, l))) for l in sorted(layer_names(f))]
            return code, out
        finally:
            shutil.rmtree(d)
    O["complete"] = lambda c: complete(c)
    O["complete_filter"] = lambda c: complete(c, "-filter", "maxdepth > 0.3", "-accum", "-vector")
    return O


def outcome(c, op):
    """(outcome in comparable form, what was returned)"""
    try:
        r = op(c)
        if not isinstance(r, (np.ndarray, np.generic, dict, str, type(None))):
            r = list(r) if not isinstance(r, (int, float)) else r
        return ("gives", canon(r)), r
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return ("raises", type(e).__name__), None


def history(c, O, names):
    """Executes the operations one after another -> their outcomes, digest of the inputs after each. Results are kept, and must not be changed by later operations"""
    out = []
    results = []
    for n in names:
        o, r = outcome(c, O[n])
        out.append((o, c.inputs()))
        results.append(r)
    if 1 < len(names) <= 4:
        for n, (o, i), r in zip(names, out, results):
            if o[0] == "gives":
                require(canon(r) == o[1], "the result of %s was changed by a later one of %s", n, names)
    return out


class Space(object):
    def __init__(self, rec):
        import logging
        logging.disable(logging.CRITICAL)
        import scipy.ndimage        # noqa: F401  (takes long: not in each process anew)
        import click.testing        # noqa: F401
        import malstroem.scripts.cli        # noqa: F401
        self.c = Context(rec.fresh())
        self.c.prepare()
        self.O = operations()
        self.names = list(self.O)
        self.i0 = self.c.inputs()
        self.expected = {}

    def expect(self, n):
        if n not in self.expected:
            (o, i), = apart(history, self.c, self.O, [n])
            require(i == self.i0, "%s changes its inputs", n)
            self.expected[n] = o
        return self.expected[n]

    def check(self, names):
        want = [self.expect(n) for n in names]
        got = apart(history, self.c, self.O, names)
        for k, (o, i) in enumerate(got):
            require(i == self.i0, "%s changes its inputs (after %s)", names[k], ", ".join(names[:k]))
            if o != want[k]:
                a, b = repr(o), repr(want[k])
                j = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
                raise Problem("%s after %s gives ...%s instead of ...%s" % (names[k], ", ".join(names[:k][-4:]), a[max(0, j - 60):j + 100], b[max(0, j - 60):j + 100]))
        return len(names), hash(tuple(o for o, i in got[-1:]))


def alone(rec):
    """Each operation in a fresh process, twice: the space is meaningful and deterministic; failing operations fail"""
    s = Space(rec)
    for n in s.names:
        def one():
            o = s.expect(n)
            raises = o[:1] == ("raises",)
            require(raises == (n.startswith("fail_") or n == "filter_illegal"), "%s: %r", n, o)
            if n.startswith("run_") or n.startswith("complete"):
                require(o[1][0] == 0, "%s: exit code %r", n, o[0])
            if n.startswith("bad_"):
                require(o[1][0] == 1 and (not o[1][1] or n == "bad_directory"), "%s: %r", n, o)
            del s.expected[n]
            require(s.expect(n) == o, "%s is not deterministic", n)
            return 2, hash(o)
        rec.check(dict(operation=n), one)


def histories(rec, sh, n, step):
    s = Space(rec)
    N = s.names
    k = 0
    for a in N:
        for b in N:
            k += 1
            if k % n != sh:
                continue
            if not step and a.startswith(COMMANDS) and b.startswith(COMMANDS):
                continue        # those follow each other in the tour, and in C19
            rec.check(dict(history=(a, b)), s.check, [a, b])
            if step:
                for j in range((k // n) % step, len(N), step):
                    rec.check(dict(history=(a, b, N[j])), s.check, [a, b, N[j]])


def switched(rec, sh, n):
    """Speedups disabled throughout: the same results"""
    s = Space(rec)
    for k, a in enumerate(s.names):
        if k % n == sh:
            for b in s.names:
                if a.startswith(COMMANDS) or b.startswith(COMMANDS):
                    continue
                rec.check(dict(history=("disable", a, b)), s.check, ["disable", a, b])


def tour(rec, sh, n, skip):
    """One history in which every operation follows every other one (a sequence of pairs i, i+d for all distances d)"""
    s = Space(rec)
    names = [x for x in s.names if not x.startswith(skip)]
    N = len(names)
    out = []
    for d in range(sh, N, n):
        i = 0
        seen = set()
        start = 0
        while len(seen) < N:
            while start in seen:
                start += 1
            i = start
            while i not in seen:
                seen.add(i)
                out.append(names[i])
                i = (i + d) % N
            out.append(names[i])
    rec.check(dict(length=len(out), start=out[:20]), lambda: s_check(s, out))


def s_check(s, names):
    want = [s.expect(n) for n in names]
    got = apart(history, s.c, s.O, names, timeout=600)
    for k, (o, i) in enumerate(got):
        require(i == s.i0, "%s changes its inputs", names[k])
        require(o == want[k], "%s after %d operations, the last of them %s, gives %r instead of %r", names[k], k, names[max(0, k - 4):k], repr(o)[:200], repr(want[k])[:200])
    return len(names)


# ---------------------------------------------------------------------------------------------------------------------
# objects which are changed between the calls

def buffer_functions():
    """name -> function of arrays, which it does not change"""
    from malstroem.algorithms import fill, flow, label, net
    from malstroem import approx, hyps, bluespots, streams, dem
    F = {}

    def fn(f):
        F[f.__name__] = f
        return f

    def points(b):
        n = int(b["lab"].max())
        return [tuple(int(v) for v in np.argwhere(b["lab"] == i)[0]) for i in range(1, n + 1)]
    F["fill"] = lambda b: fill.fill_terrain(b["dem"])
    F["noflats"] = lambda b: fill.fill_terrain_no_flats(b["dem"], *fill.minimum_safe_short_and_diag(b["dem"]))
    F["increments"] = lambda b: fill.minimum_safe_short_and_diag(b["dem"])
    F["flowdirection"] = lambda b: flow.terrain_flowdirection(b["noflats"])
    F["accumulated"] = lambda b: flow.accumulated_flow(b["flowdir"])
    F["components"] = lambda b: label.connected_components(b["depths"])
    F["stats"] = lambda b: label.label_stats(b["depths"], b["lab"])
    F["stats_given"] = lambda b: label.label_stats(b["dem"], b["lab"], 40)
    F["count"] = lambda b: label.label_count(b["lab"])
    F["data"] = lambda b: [np.array(x) for x in label.label_data(b["dem"], b["lab"])]
    F["minindex"] = lambda b: label.label_min_index(b["noflats"], b["lab"])
    F["maxindex"] = lambda b: label.label_max_index(b["accum"], b["lab"])
    F["keep"] = lambda b: label.keep_labels(b["lab"], [i % 3 != 1 for i in range(int(b["lab"].max()) + 1)])
    F["setvalue"] = lambda b: label.set_label_to_value(b["lab"], np.arange(int(b["lab"].max()) + 1) * 1.5)

    @fn
    def watersheds(b):
        w = b["lab"].copy()
        flow.watersheds_from_labels(b["flowdir"], w, 0)
        return w

    @fn
    def watersheds_in_place(b):
        b["work"][...] = b["lab"]
        flow.watersheds_from_labels(b["flowdir"], b["work"], 0)
        return b["work"].copy()
    F["upstream"] = lambda b: sorted(flow.upstream_cells(b["flowdir"], (4, 4)))
    F["downstream"] = lambda b: list(flow.trace_downstream(b["flowdir"], (4, 4)))
    F["pourpointnet"] = lambda b: net.pourpoint_network(b["flowdir"], b["lab"], points(b), 0)
    F["geometricnet"] = lambda b: net.geometric_pourpoint_network(b["flowdir"], b["lab"], points(b), 0)
    F["histogram"] = lambda b: [(k, s.zhistogram.counts if len(s.zhistogram.counts) else [], s.zhistogram.bins, s.zmin, s.zmax) for k, s in hyps.bluespot_hypsometry_stats(b["lab"], b["dem"], 0.5) if k]
    F["approximate"] = lambda b: approx.approx_bluespots(b["lab"].copy(), {i: 3.0 * i for i in range(int(b["lab"].max()) + 1)}, b["dem"])

    class Out(object):
        filepath = None

        def __init__(self):
            self.w = []

        def write(self, a):
            self.w.append(np.array(a))

        def write_geojson_features(self, fs):
            self.w.append([(f["geometry"], f["properties"]) for f in (fs["features"] if isinstance(fs, dict) else fs)])

    class In(MemRaster):
        """Hands out the array itself"""

        def __init__(self, a):
            MemRaster.__init__(self, a, TRANSFORMS[1])
            self.it = a

        def read(self):
            return self.it

    def tool(make):
        o = [Out() for _ in range(4)]
        make(o).process()
        return [x.w for x in o]
    F["tool_dem"] = lambda b: tool(lambda o: dem.DemTool(In(b["dem"]), o[0], o[1], o[2], o[3]))
    F["tool_spots"] = lambda b: tool(lambda o: bluespots.BluespotTool(In(b["depths"]), In(b["flowdir"]), None, o[0], o[1], o[2], input_accum=In(b["accum"])))
    return F


ARRAYS = ("dem", "noflats", "flowdir", "depths", "lab", "accum")


class Buffers(object):
    def __init__(self):
        from ..util import pipeline
        from malstroem.algorithms import label

        def derive():
            out = []
            for k in (11, 12):
                r = np.random.RandomState(k)    # fixed data without equal slopes
                z = (r.permutation(72).reshape(8, 9) * 0.37 + r.rand(8, 9) * 0.01).astype(np.float32)
                p = pipeline(z, True)
                p["lab"] = label.connected_components(p["depths"])[0]
                out.append({n: np.array(p[n]) for n in ARRAYS})
            return out
        self.content = apart(derive)
        self.F = buffer_functions()
        self.want = {}

    def run(self, seq):
        """Calls functions with the same arrays, whose contents change between the calls"""
        b = {n: np.zeros_like(a) for n, a in self.content[0].items()}
        b["work"] = np.zeros_like(b["lab"])
        out, kept = [], []
        for f, k in seq:
            for n in ARRAYS:
                b[n][...] = self.content[k][n]
            r = self.F[f](b)
            if not isinstance(r, (np.ndarray, np.generic, dict, str, type(None), int, float)):
                r = list(r)
            out.append(canon(r))
            for n in ARRAYS:
                require(np.array_equal(b[n], self.content[k][n]), "%s changes %s", f, n)
            kept.append(r)
        # nor do results change with what the caller does to its arrays
        for a in b.values():
            a[...] = 0
        for (f, k), r, o in zip(seq, kept, out):
            require(canon(r) == o, "the result of %s changes with its input", f)
        return out

    def check(self, seq):
        for f, k in seq:
            if (f, k) not in self.want:
                self.want[f, k] = apart(self.run, [(f, k)])[0]
        got = apart(self.run, seq)
        for i, ((f, k), o) in enumerate(zip(seq, got)):
            require(o == self.want[f, k], "%s gives %.200r after %r with the same arrays with other contents, expected %.200r", f, o, seq[:i], self.want[f, k])
        return len(seq), hash(tuple(got))


def buffers(rec, sh, n, step):
    s = Buffers()
    k = 0
    for f in s.F:
        for g in s.F:
            k += 1
            if k % n != sh:
                continue
            rec.check(dict(buffers=((f, 0), (g, 1))), s.check, [(f, 0), (g, 1)])
            if f == g:
                rec.check(dict(buffers=((f, 0), (f, 1), (f, 0))), s.check, [(f, 0), (f, 1), (f, 0)])
            elif step:
                for h in list(s.F)[(k // n) % step::step]:
                    rec.check(dict(buffers=((f, 0), (g, 1), (h, 0))), s.check, [(f, 0), (g, 1), (h, 0)])


NET = [dict(nodeid=i, dstrnodeid=d, wshed_area=10.0 + i, bspot_vol=v, a=0.5 * i + 0.25, b=3.0 - i) for i, d, v in ((0, None, 0.0), (1, 0, 1.5), (2, 1, 0.5), (3, None, 0.25), (4, 3, 0.0), (5, 2, 0.125))]


def growing(order, ops):
    """A network which grows, is changed and whose events are calculated in between: each as for a new network of the same nodes"""
    from malstroem.network import Network
    n = Network()
    have, kept = [], []
    left = [dict(NET[i]) for i in order]
    for i, o in enumerate(ops):
        if o == "add" and left:
            x = left.pop(0)
            have.append(x)
            n.add_node(x)
        elif o == "two" and left:
            xs, left = left[:2], left[2:]
            have += xs
            n.add_nodes(iter(xs))
        elif o == "change" and have:
            have[0]["a"] += 1.5
            have[-1]["b"] *= 2
            have[-1]["bspot_vol"] += 0.25
        elif o in ("a", "b"):
            got = n.rain_event(o)
            m = Network()
            m.add_nodes([dict(x) for x in have])
            want = m.rain_event(o)
            key = lambda e: e["nodeid"]
            require(sorted(got, key=key) == sorted(want, key=key), "after %r rain_event(%r) gives %r, a new network of these nodes %r", ops[:i], o, got, want)
            kept.append((i, got, canon(got)))
        for j, g, c in kept:
            require(canon(g) == c, "the result of call %d was changed by call %d (%s)", j, i, o)
    return len(ops), repr([c for j, g, c in kept[-1:]])


def networks(rec, sh, n, length):
    k = 0
    orders = [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 0, 4, 1, 5, 3), (3, 4, 0, 1, 2, 5)]
    import itertools
    for L in range(2, length + 1):
        for ops in itertools.product(("add", "two", "change", "a", "b"), repeat=L):
            if ops[-1] not in "ab" or ops[0] not in ("add", "two"):
                continue
            k += 1
            if k % n == sh:
                for order in orders:
                    rec.check(dict(order=order, calls=ops), growing, order, ops)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("alone", alone)
    J.add("histories", histories, SH, NS, 2 if T else 0, n=48 if T else 24)
    J.add("switched", switched, SH, NS, n=8)
    J.add("tour", tour, SH, NS, (), n=8)
    J.add("buffers", buffers, SH, NS, 4 if T else 0, n=24 if T else 8)
    J.add("networks", networks, SH, NS, 8 if T else 6, n=24 if T else 8)
    return J
