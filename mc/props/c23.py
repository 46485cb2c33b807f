"""C23: a failing write is reported, never passed off as success.

Every command of the process chain is executed with every single fault of the stated kinds: each of its write operations fails (once, or because
the disk is full from then on), the process dies before or in the middle of each write operation, no file can grow beyond each size.
"""
import ctypes
import os
import resource
import shutil
import signal
import sqlite3
import tempfile

import numpy as np

from ..core import require, Problem
from ..util import Jobs, SH, NS, cli, TRANSFORMS
from . import c19
from .c19 import Chain, States, WKT, snapshot, differ

BOUNDS = ("each step of the process chain (one GeoPackage, or separate files) and complete x every write operation n x {fails once, disk full from then on, process dies before it, process dies halfway}, "
          "and every file size limit in steps from the size of existing files to the size of the result; every tool x every reading or writing operation of it raises x seven kinds of exception")
ASSUMPTIONS = ["a process which dies leaves what it has written (no loss of caches of the operating system)", "an interrupted GeoPackage is recovered by SQLite when it is opened for writing"]

ONCE, FULL, DIE, HALF = 1, 2, 3, 4
NAMES = {ONCE: "fails", FULL: "disk full from here", DIE: "process dies before it", HALF: "process dies in it"}
_lib = []


def lib():
    if not _lib:
        L = ctypes.CDLL(os.environ["MC_SHIM"])
        L.flt_count.restype = ctypes.c_long
        L.flt_names.restype = ctypes.c_char_p
        L.flt_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long]
        _lib.append(L)
    return _lib[0]


def run(states, args, mode, n, limit=None, timeout=120):
    """Exit code of the command under a fault, number of write operations"""
    L = lib()
    tmp = os.path.join(states.root, "tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.mkdir(tmp)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.alarm(timeout)
            tempfile.tempdir = tmp
            os.chdir(states.work)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            L.flt_arm(states.root.encode(), mode, n)
            code, exc = cli(*args)
            code = code & 255
            if code == 0 and exc is not None:
                code = 97
            del exc
            import gc
            gc.collect()
            L.flt_disarm()
            msg = b"%d\n" % L.flt_count() + L.flt_names()
            while msg:
                msg = msg[os.write(w, msg):]
        finally:
            os._exit(code)
    os.close(w)
    got = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        got += b
    os.close(r)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    shutil.rmtree(tmp, ignore_errors=True)
    lines = got.decode().split("\n")
    return code, Operations(int(lines[0] or 0), lines[1:])


class Operations(int):
    """Number of write operations, and the file of each"""
    def __new__(cls, n, files=()):
        self = int.__new__(cls, n)
        self.files = list(files)
        return self

    def chosen(self, stride, phase, few=40):
        """All operations on files with few of them; of the others every stride'th, the first and the last ones"""
        by = {}
        for i, f in enumerate(self.files[:self], 1):
            by.setdefault(f, []).append(i)
        out = {self + 1}
        for f in sorted(by):
            L = by[f]
            out.update(L if len(L) <= few else L[phase % stride::stride] + L[:2] + L[-2:])
        return sorted(out)


def tables(path):
    c = sqlite3.connect(path)
    try:
        ok = c.execute("PRAGMA integrity_check").fetchall()
        require(ok == [("ok",)], "%s is damaged: %r", os.path.basename(path), ok[:2])
        out = {}
        for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%'").fetchall():
            if t == "gpkg_ogr_contents":    # feature counts kept by GDAL to save time
                continue
            if t.startswith("rtree_") and t.count("_") > 2:
                out[t] = 0
            else:
                out[t] = c.execute('SELECT count(*) FROM "%s"' % t).fetchone()[0] if not t.startswith("rtree_") else 1
        # layer extents are for information only
        return out, sorted(c.execute("SELECT table_name FROM gpkg_contents").fetchall()), sorted(c.execute("SELECT table_name, extension_name FROM gpkg_extensions").fetchall()) \
            if "gpkg_extensions" in out else None
    finally:
        c.close()


class Faults(object):
    def __init__(self, chain, states):
        self.chain, self.states = chain, states
        self.info = {}

    def before(self, x):
        s = set()
        for n in self.chain.steps[x][0]:
            s |= self.chain.closure(n)
        return frozenset(s)

    def prepare(self, x):
        if x in self.info:
            return self.info[x]
        s = self.before(x)
        st = self.states
        d0, d1 = st.state(s), st.state(s | {x})
        outs = {a if a.endswith(".tif") else self.chain.layers[a][0] for a in self.chain.steps[x][2]}
        size0 = {f: os.path.getsize(os.path.join(d0, f)) for f in os.listdir(d0)}
        size1 = {f: os.path.getsize(os.path.join(d1, f)) for f in os.listdir(d1)}
        st.prepare(d0)
        code, n = run(st, self.chain.steps[x][1], 0, 0)
        require(code == 0, "%s fails without any fault", x)
        grown = [f for f in size1 if size1[f] != size0.get(f)]
        self.info[x] = dict(s=s, outs=outs, before=snapshot(d0), count=n, low=max([size0.get(f, 0) for f in grown] or [0]), high=max([size1[f] for f in grown] or [0]),
                            tables={f: tables(os.path.join(st.work, f)) for f in outs if f.endswith(".gpkg")})
        return self.info[x]

    def inject(self, x, mode, n, limit=None):
        i = self.prepare(x)
        st = self.states
        st.prepare(st.state(i["s"]))
        code, _ = run(st, self.chain.steps[x][1], mode, n, limit)
        require(code != -signal.SIGALRM, "%s does not end", x)
        gp = {f: tables(os.path.join(st.work, f)) for f in sorted(i["outs"]) if f.endswith(".gpkg") and os.path.exists(os.path.join(st.work, f)) and (f in i["before"] or code == 0)}
        after = snapshot(st.work)
        for f in i["before"]:
            if f not in i["outs"]:
                require(after.get(f) == i["before"][f], "%s (exit code %r) changed its input %s", x, code, f)
        for a, v in st.desc[i["s"]].items():
            self.artifact(st.work, a, v, "%s ends with exit code %r: %s, which existed before," % (x, code, a))
        if code == 0:
            for a in self.chain.steps[x][2]:
                p = a if a.endswith(".tif") else self.chain.layers[a][0]
                drv = {".geojson": "geojson", ".csv": "csv", ".shp": "shapefile"}.get(os.path.splitext(p)[1])
                self.artifact(st.work, a, st.desc[i["s"] | {x}][a], "%s ends with exit code 0, but its output %s" % (x, a), drv)
            for f in gp:
                require(gp[f] == i["tables"][f], "%s ends with exit code 0, but %s is incomplete: %r instead of %r", x, f, gp[f], i["tables"][f])
        return 1, (x, code, mode)

    def artifact(self, d, a, v, what, key=None):
        try:
            got = self.chain.describe(d, a)
        except (Exception, Problem) as e:
            raise Problem("%s cannot be read: %s" % (what, str(e)[:200]), key)
        if got != v:
            raise Problem("%s is not right: %s" % (what, differ(got, v) if got[0] == v[0] else ""), key)


def what(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, dict):
                    return "%r instead of %r" % ([i for i in x.items() if i not in y.items()], [i for i in y.items() if i not in x.items()])
                return "%r instead of %r" % (repr(x)[:150], repr(y)[:150])
    return ""


def inputs_of(ix):
    name, dem, nodata = list(c19.dems())[ix]
    return c19.inputs(dem, nodata, TRANSFORMS[1], WKT)


def explore(rec, opts, ix, sh, n, stride, modes=(ONCE, FULL, DIE, HALF)):
    chain = Chain(dict(opts, zres=0.5, scenarios=["mm:20"]))
    st = States(chain, rec.fresh(), inputs_of(ix))
    F = Faults(chain, st)
    k = -1
    for x in chain.order:
        k += 1
        if k % n != sh:
            continue
        info = F.prepare(x)
        N = info["count"]
        for mode in modes:
            for i in N.chosen(stride, mode * 3):
                rec.check(lambda: dict(step=x, options=opts, operation=i, of=N, fault=NAMES[mode]), F.inject, x, mode, i)
        lo, hi = info["low"], info["high"]
        step = max(1, (hi - lo) // (400 // stride))
        for lim in list(range(lo, hi, step)) + [hi - 1, hi]:
            if lim >= 0:
                rec.check(lambda: dict(step=x, options=opts, file_size_limit=lim, needed=hi), F.inject, x, 0, 0, lim)


def whole(rec, ix, sh, n, stride):
    """complete: nothing outside of its output directory changes, success means everything is there"""
    root = rec.fresh()
    chain = Chain(dict(zres=0.5, scenarios=["mm:20"]))
    st = States(chain, root, inputs_of(ix))
    args = ["complete", "-dem", "dem.tif", "-outdir", "out", "-mm", "20", "-zresolution", "0.5", "-vector", "-accum"]

    def fresh():
        st.prepare(None)
        os.mkdir(os.path.join(st.work, "out"))
    fresh()
    code, N = run(st, args, 0, 0)
    require(code == 0, "complete fails without any fault")
    from ..util import read_tif, read_layer, layer_names

    def contents():
        out = os.path.join(st.work, "out")
        got = {}
        for f in sorted(os.listdir(out)):
            p = os.path.join(out, f)
            if f.endswith(".tif"):
                a, t, c, nd = read_tif(p)
                got[f] = (a.tobytes(), a.shape, t, bool(c), nd)
            elif f.endswith(".gpkg"):
                got[f] = tables(p)
                for l in layer_names(p):
                    got[l] = read_layer(p, l)
            else:
                got[f] = None
        return got
    want = contents()
    before = c19.snapshot_files(st.work)

    def one(mode, i):
        fresh()
        code, _ = run(st, args, mode, i)
        require(c19.snapshot_files(st.work) == before, "complete (exit code %r) changed its input", code)
        if code == 0:
            try:
                got = contents()
            except (Exception, Problem) as e:
                raise Problem("complete ends with exit code 0, but its results cannot be read: %s" % str(e)[:200])
            for k in want:
                require(got.get(k) == want[k], "complete ends with exit code 0, but %s is incomplete or missing: %s", k, what(got.get(k), want[k]))
            require(set(got) == set(want), "complete left %s", sorted(set(got) - set(want)))
        return 1, (code, mode)
    for mode in (ONCE, FULL):
        for i in N.chosen(stride, mode * 3)[sh::n]:
            rec.check(lambda: dict(step="complete", operation=i, of=N, fault=NAMES[mode]), one, mode, i)


class Lost(Exception):
    pass


def tools(rec):
    """The tools themselves: whatever reading or writing of theirs fails, with whatever exception, they do not end normally"""
    from ..util import MemRaster, MemVector, use
    from . import c25
    from malstroem import dem, bluespots, streams, rain, network, hyps, approx
    use(True)
    z = np.float32([[5, 5, 5, 5, 5, 5, 5], [5, 1, 5, 2, 5, 1, 5], [5, 2, 4, 3, 4, 2, 4], [5, 5, 5, 5, 5, 5, 5]])
    tr = TRANSFORMS[0]
    p, pp = c25.dem_inputs(z, tr)
    nodes = c25.streams(p, pp)[0]
    vols = c25.rain_mm(nodes)
    fv, hy = c25.final(vols), c25.hypsometry(p, pp)
    lv = c25.levels(fv, hy)
    from ..util import pipeline
    q = pipeline(z, accum=True)
    state = {}

    def call(fn):
        def g(*a):
            state["k"] += 1
            if state["k"] == state["n"]:
                raise state["exc"]("no space left on device")
            return fn(*a)
        return g

    def ras(a=None):
        m = MemRaster(a, tr)
        m.read, m.write = call(m.read), call(m.write)
        return m

    def vec(f=None):
        m = MemVector(f)
        m.read_geojson_features, m.write_geojson_features = call(m.read_geojson_features), call(m.write_geojson_features)
        return m
    T = {
        "DemTool": lambda: dem.DemTool(ras(z), ras(), ras(), ras(), ras()).process(),
        "DemTool without accum": lambda: dem.DemTool(ras(z), ras(), ras(), ras()).process(),
        "BluespotTool": lambda: bluespots.BluespotTool(ras(q["depths"]), ras(q["flowdir"]), None, ras(), vec(), ras(), input_dem=ras(z)).process(),
        "BluespotTool with accum and filter": lambda: bluespots.BluespotTool(ras(q["depths"]), ras(q["flowdir"]), lambda s: s["max"] > 1, ras(), vec(), ras(), input_accum=ras(q["accum"])).process(),
        "StreamTool": lambda: streams.StreamTool(vec(pp), ras(p["lab"]), ras(p["flowdir"]), vec(), vec()).process(),
        "StreamTool without streams": lambda: streams.StreamTool(vec(pp), ras(p["lab"]), ras(p["flowdir"]), vec()).process(),
        "SimpleVolumeTool": lambda: rain.SimpleVolumeTool(vec(nodes), vec(), "inputv", 20).process(),
        "RasterVolumeTool": lambda: rain.RasterVolumeTool(vec(nodes), ras(p["ws"]), ras(z), rain.Unit.mm, vec(), "inputv").process(),
        "FinalStateCalculator": lambda: network.FinalStateCalculator(vec(vols), "inputv", vec()).process(),
        "bluespot_hypsometry_io": lambda: hyps.bluespot_hypsometry_io(ras(p["lab"]), ras(z), vec(pp), 0.5, vec()),
        "approx_water_level_io": lambda: approx.approx_water_level_io(vec(fv), vec(hy), vec()),
        "approx_bluespots_io": lambda: approx.approx_bluespots_io(ras(p["lab"]), vec(lv), ras(z), ras(), ras()),
        "approx_bluespots_io depths": lambda: approx.approx_bluespots_io(ras(p["lab"]), vec(lv), ras(z), ras()),
        "approx_bluespots_io bluespots": lambda: approx.approx_bluespots_io(ras(p["lab"]), vec(lv), ras(z), None, ras()),
    }

    def one(name, n, exc):
        state.update(k=0, n=n, exc=exc)
        try:
            T[name]()
        except exc:
            return 1, (name, n)
        except Exception:
            return 1, (name, n, "another")
        require(state["k"] < n, "%s ends normally although reading or writing operation %d failed with %s", name, n, exc.__name__)
        return 1, None
    for name in T:
        state.update(k=0, n=0)
        T[name]()
        for n in range(1, state["k"] + 1):
            for exc in (Lost, IOError, RuntimeError, ValueError, AssertionError, KeyError, MemoryError):
                rec.check(dict(tool=name, operation=n, exception=exc.__name__), one, name, n, exc)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("tools", tools)
    J.add("complete", whole, 0, SH, NS, 1 if T else 6, n=8)
    J.add("one", explore, dict(accum=True, vector=True), 0, SH, NS, 1 if T else 7, n=8)
    J.add("files", explore, dict(accum=False, vector=True, one=False), 0, SH, NS, 1 if T else 3, n=8)
    if T:
        J.add("one-dem1", explore, dict(accum=False, vector=True, filter=c19.FILTERS[1]), 1, SH, NS, 1, n=8)
        J.add("complete-dem1", whole, 1, SH, NS, 1, n=8)
    return J
