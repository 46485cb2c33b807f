"""C31: turning, mirroring, raising or rescaling the terrain turns, mirrors, raises or rescales the results."""
import itertools

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, MemRaster, MemVector, use, run_ok, write_tif, read_tif, read_layer, Scratch

BOUNDS = ("all 4x4 and 3x5 basins with three levels and single outlets, all 3x3..3x4 DEMs with three levels, made tie free by fixed patterns of small differences, and textures up to 60x70, "
          "x the 8 turns and mirrors (of the data, and of the georeference), datum shifts from -4096 to 4096 m (one which puts the summit, and one which puts the mean at zero), vertical and horizontal units from 2^-12 to 2^12, origins; filters, both pour point "
          "methods, native speedups and Python; the command chain on files")
ASSUMPTIONS = ["no two cells have the same elevation and no two bluespots the same spill level (otherwise the flow direction is a choice)",
               "cell sizes, elevations and rain are such that sums and products are exact in the number types used"]

FILTERS = [None, ("area", 3), ("maxdepth", 1.0), ("volume", 4.0)]
NODES = ("wshed_area", "bspot_area", "bspot_vol")


class Run(object):
    """One run of the whole chain in memory"""

    def __init__(self, dem, tr, mm, zres, flt=None, accum=True, scale=(1.0, 1.0), rain_raster=None):
        from malstroem import dem as demtool, bluespots, streams, rain, network, hyps, approx
        R = lambda a: MemRaster(np.array(a), tr)
        filled, flowdir, depths, acc = MemRaster(), MemRaster(), MemRaster(), MemRaster()
        demtool.DemTool(R(dem), filled, flowdir, depths, acc).process()
        f = None
        if flt:
            key, lim = flt
            sx, sz = scale
            lim = lim * {"area": sx * sx, "maxdepth": sz, "volume": sx * sx * sz}[key]
            f = (lambda s: s["max"] >= lim) if key == "maxdepth" else (lambda s: s[key] >= lim)
        bs, pp, ws = MemRaster(), MemVector(), MemRaster()
        bluespots.BluespotTool(R(depths.out), R(flowdir.out), f, bs, pp, ws, R(acc.out) if accum else None, R(dem)).process()
        nodes, lines = MemVector(), MemVector()
        streams.StreamTool(MemVector(pp.out), R(bs.out), R(flowdir.out), nodes, lines).process()
        vols, fin = MemVector(), MemVector()
        if rain_raster is None:
            rain.SimpleVolumeTool(MemVector(nodes.out), vols, "inputv", mm).process()
        else:
            rain.RasterVolumeTool(MemVector(nodes.out), R(ws.out), R(rain_raster), rain.Unit.mm, vols, "inputv").process()
        network.FinalStateCalculator(MemVector(vols.out), "inputv", fin).process()
        hy, lv, fd, fb = MemVector(), MemVector(), MemRaster(), MemRaster()
        hyps.bluespot_hypsometry_io(R(bs.out), R(dem), MemVector(pp.out), zres, hy)
        approx.approx_water_level_io(MemVector(fin.out), MemVector(hy.out), lv)
        approx.approx_bluespots_io(R(bs.out), MemVector(lv.out), R(dem), fd, fb)
        self.filled, self.depths, self.bs, self.ws, self.acc = filled.out, depths.out, bs.out, ws.out, acc.out
        self.flowdir, self.fd, self.fb = flowdir.out, fd.out, fb.out
        self.pp = {x["properties"]["bspot_id"]: x for x in pp.out}
        self.fin = {x["properties"]["nodeid"]: x["properties"] for x in fin.out}
        self.node = {p["bspot_id"]: i for i, p in self.fin.items() if p["nodetype"] == "pourpoint"}
        self.lv = {x["properties"]["bspot_id"]: x["properties"] for x in lv.out}
        self.hy = {x["properties"]["bspot_id"]: x["properties"] for x in hy.out}

    def downstream(self, b):
        """bluespot the water spilled by bluespot b reaches next"""
        i = self.fin[self.node[b]]["dstrnodeid"]
        n = 0
        while i is not None and self.fin[i]["nodetype"] != "pourpoint":
            i = self.fin[i]["dstrnodeid"]
            n += 1
            require(n <= len(self.fin), "downstream ids of bluespot %r never end", b)
        return None if i is None else self.fin[i]["bspot_id"]

    def tied(self):
        """two bluespots spill at the same level: the flow between them is a choice"""
        m = self.depths > 0
        levels = set()
        # bluespots which were filtered out count, too
        from ..ref import components
        for c in components(m.tolist()):
            z = float(self.filled[next(iter(c))])
            if z in levels:
                return True
            levels.add(z)
        return False


def near(got, want, what, tol=1e-9):
    if got is None or want is None:
        require(got is None and want is None, "%s is %r, expected %r", what, got, want)
        return
    require(abs(got - want) <= tol * max(1e-30, abs(got), abs(want)), "%s is %r, expected %r", what, got, want)


def raster(got, want, what, tol=0.0):
    require(got.shape == want.shape, "%s has shape %r, expected %r", what, got.shape, want.shape)
    bad = ~(np.abs(got.astype(np.float64) - want) <= tol)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Problem("%s at %r is %r, expected %r (%d cells differ)" % (what, k, got[k].item(), want[k].item(), int(bad.sum())))


def relabel(a, b, what):
    """a, b rasters of IDs of the same partition -> {ID in a: ID in b}"""
    require(a.shape == b.shape, "%s has shape %r, expected %r", what, b.shape, a.shape)
    m = {}
    for x, y in set(zip(a.ravel().tolist(), b.ravel().tolist())):
        require(m.setdefault(x, y) == y, "%s: area %r is split", what, x)
    require(len(set(m.values())) == len(m), "%s: areas are merged", what)
    require(m.get(0, 0) == 0, "%s: background", what)
    return m


def compare(A, B, turn, shift, sx, sz, tied, zmax, zres):
    """B is the run on the terrain turned by turn, scaled by sz, raised by shift, with cells sx as wide"""
    area = sx * sx
    vol = area * sz
    hist = shift % zres == 0        # otherwise the classes of the histogram are others
    raster(B.filled, turn(A.filled).astype(np.float64) * sz + shift, "filled terrain")
    raster(B.depths, turn(A.depths).astype(np.float64) * sz, "depth")
    m = relabel(turn(A.bs), B.bs, "bluespots")
    m[0] = 0
    require(sorted(A.pp) == sorted(m) and sorted(B.pp) == sorted(m.values()), "pour points of %r and %r", sorted(A.pp), sorted(B.pp))
    for b, c in m.items():
        p, q = A.pp[b]["properties"], B.pp[c]["properties"]
        near(q["bspot_area"], p["bspot_area"] * area, "area of bluespot %d" % c)
        near(q["bspot_vol"], p["bspot_vol"] * vol, "volume of bluespot %d" % c)
        near(q["bspot_dmax"], p["bspot_dmax"] * sz, "depth of bluespot %d" % c)
        h, g = A.hy[b], B.hy[c]
        require(not hist or h["hist_counts"] == g["hist_counts"], "histogram of bluespot %d is %r, expected %r", c, g["hist_counts"], h["hist_counts"])
        if b:
            near(g["zmin"], h["zmin"] * sz + shift, "zmin of bluespot %d" % c)
            near(g["zmax"], h["zmax"] * sz + shift, "zmax of bluespot %d" % c)
    if tied:
        return
    for x, y in relabel(turn(A.ws), B.ws, "watersheds").items():
        require(m.get(x) == y, "watershed %r has become %r, its bluespot %r", x, y, m.get(x))
    tol = 1e-9 * (zmax * sz + abs(shift) + zres)
    for b, c in m.items():
        p, q = A.pp[b]["properties"], B.pp[c]["properties"]
        near(q["wshed_area"], p["wshed_area"] * area, "watershed area of %d" % c)
        near(q["bspot_fumm"], p["bspot_fumm"] * sz, "rain to fill bluespot %d" % c)
        d, e = A.downstream(b), B.downstream(c)
        require((None if d is None else m[d]) == e, "bluespot %d spills to %r, expected %r", c, e, d if d is None else m[d])
        p, q = A.fin[A.node[b]], B.fin[B.node[c]]
        for k in ("inputv", "v", "spillv"):
            near(q[k], p[k] * vol, "%s of bluespot %d" % (k, c))
        near(q["pctv"], p["pctv"], "pctv of bluespot %d" % c)
        if b and hist:
            p, q = A.lv[b], B.lv[c]
            require(abs(q["approx_z"] - (p["approx_z"] * sz + shift)) <= tol, "water level of bluespot %d is %r, expected %r", c, q["approx_z"], p["approx_z"] * sz + shift)
            require(abs(q["approx_dmax"] - p["approx_dmax"] * sz) <= tol, "water depth of bluespot %d is %r, expected %r", c, q["approx_dmax"], p["approx_dmax"] * sz)
    if not hist:
        return
    want = turn(A.fd).astype(np.float64) * sz
    tol = max(tol, 1e-6 * float(np.abs(want).max()) if want.size else 0)
    raster(B.fd, want, "final depth", tol)
    # an extent may only differ where the level is at the terrain
    a, b = turn(A.fb), B.fb
    mapped = np.vectorize(lambda x: m[x])(a) if a.size else a
    bad = (mapped != b) & (want > 2 * tol)
    require(not bad.any(), "final extent differs in %d cells", int(bad.sum()))
    require(((b == 0) | (b == B.bs)).all(), "final extent is not part of the bluespot")




def gold(shape, k):
    """fixed pattern of differences below 1/2 without ties, multiples of 2^-10"""
    n = shape[0] * shape[1]
    p = (np.arange(n, dtype=np.int64) * (7, 11, 13, 17)[k % 4] + 3 * k) % 509
    require(len(set(p.tolist())) == n, "pattern is not tie free")
    return p.reshape(shape) / 1024.0


TURNS = [(lambda a, k=k, f=f: np.ascontiguousarray(np.rot90(a, k)[:, ::-1] if f else np.rot90(a, k))) for k in range(4) for f in (0, 1)]
SAME = TURNS[0]
BASE = (720000.0, 2.0, 0.0, 6190000.0, 0.0, -2.0)
# geotransforms of the same cell size: anywhere, south up, east to left
PLACES = [BASE, (0.0, 2.0, 0.0, 0.0, 0.0, 2.0), (-8192.5, -2.0, 0.0, 64.0, 0.0, -2.0), (1e6, -2.0, 0.0, -1e6, 0.0, 2.0)]
SHIFTS = (16.0, "top", "mean", -64.0, 4096.0, -4096.0, -1024.0, -1.0)
UNITS = [(1.0, 2.0 ** -12), (1.0, 4096.0), (2.0 ** -8, 1.0), (1024.0, 1.0), (2.0 ** -10, 2.0 ** -10), (0.25, 8.0)]
VARIANTS = ([(t, PLACES[i % 4], 0.0, 1.0, 1.0) for i, t in enumerate(TURNS)][1:] + [(SAME, PLACES[i], 0.0, 1.0, 1.0) for i in (1, 2, 3)]
            + [(SAME, BASE, s, 1.0, 1.0) for s in SHIFTS] + [(SAME, BASE, 0.0, sx, sz) for sx, sz in UNITS]
            + [(TURNS[5], PLACES[1], -2048.0, 0.5, 0.25)])


def amount(shift, z):
    if shift == "top":      # highest cell at zero
        return -float(z.max())
    if shift == "mean":     # zero on average (nearly)
        return -float(np.round(z.mean() * 1024)) / 1024
    return shift


def evaluate(z, variants, mm, zres, flt, accum, native, dtype):
    z = np.asarray(z, dtype=dtype)
    # rain as a raster which is turned with the terrain
    water = None if accum else (np.arange(z.size) * 5 % 7 * (mm / 4.0)).reshape(z.shape).astype(dtype)
    use(native)
    try:
        A = Run(z, BASE, mm, zres, flt, accum, rain_raster=water)
        tied = A.tied()
        zmax = float(np.abs(z).max())
        for v in variants:
            turn, tr, shift, sx, sz = VARIANTS[v]
            shift = amount(shift, z)
            z2 = (turn(z).astype(np.float64) * sz + shift).astype(np.float32).astype(dtype)
            if not (z2.astype(np.float64) == turn(z).astype(np.float64) * sz + shift).all():
                raise Problem("harness: variant %d is not exact" % v)
            tr2 = (tr[0], tr[1] * sx, 0.0, tr[3], 0.0, tr[5] * sx)
            B = Run(z2, tr2, mm * sz, zres * sz, flt, accum, (sx, sz), None if water is None else turn(water) * z.dtype.type(sz))
            try:
                compare(A, B, turn, shift, sx, sz, tied, zmax, zres * sz)
            except Problem as e:
                raise Problem("variant %d (turn %d, georeference %r, raised by %g, cell size x %g, heights x %g): %s"
                              % (v, [i for i, t in enumerate(TURNS) if t is turn][0], tr2, shift, sx, sz, e))
    finally:
        use(True)
    return len(variants) * 10, (A.bs.tobytes(), tied)


def finer(z, f, zres, flt, native):
    """each cell split into f x f cells: same lakes, volumes and levels"""
    use(native)
    try:
        A = Run(z, BASE, 1e7, zres, flt, False)
        turn = lambda a: np.repeat(np.repeat(a, f, 0), f, 1)
        B = Run(turn(z), (BASE[0], BASE[1] / f, 0.0, BASE[3], 0.0, BASE[5] / f), 1e7, zres, flt, False)
    finally:
        use(True)
    raster(B.filled, turn(A.filled).astype(np.float64), "filled terrain of split cells")
    raster(B.depths, turn(A.depths).astype(np.float64), "depth of split cells")
    m = relabel(turn(A.bs), B.bs, "bluespots of split cells")
    m[0] = 0
    require(sorted(A.pp) == sorted(m) and sorted(B.pp) == sorted(m.values()), "split cells: pour points of %r and %r", sorted(A.pp), sorted(B.pp))
    for b, c in m.items():
        for k in ("bspot_area", "bspot_vol", "bspot_dmax"):
            near(B.pp[c]["properties"][k], A.pp[b]["properties"][k], "split cells: %s of bluespot %d" % (k, c))
        if b:
            a, d = A.hy[b], B.hy[c]
            require([f * f * int(float(x)) for x in a["hist_counts"].split("|")] == [int(float(x)) for x in d["hist_counts"].split("|")],
                    "split cells: histogram of bluespot %d is %r, was %r", c, d["hist_counts"], a["hist_counts"])
            for k in ("zmin", "zmax"):
                near(d[k], a[k], "split cells: %s of bluespot %d" % (k, c))
            near(B.lv[c]["approx_z"], A.lv[b]["approx_z"], "split cells: level of full bluespot %d" % c)
    near(sum(x["properties"]["wshed_area"] for x in B.pp.values()), sum(x["properties"]["wshed_area"] for x in A.pp.values()), "split cells: area of all watersheds")
    near(sum(p["v"] for p in B.fin.values()), sum(p["v"] for p in A.fin.values()), "split cells: water held")
    raster(B.fd, turn(A.fd).astype(np.float64), "final depth of split cells", 1e-5)
    return 12, None


def split(rec, shape, levels, wall, outlets, sh, n, step=1):
    k = -1
    for z in spaces.basins(shape, levels, wall, outlets, np.float64):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        j = k // step
        if j % 3 == 0:
            z = z + gold(shape, j)
        f, (_, zres, flt, _, native, _) = (2, 3, 2, 2, 5)[j % 5], params(j)
        rec.check(lambda: dict(dem=z, split=f, zresolution=zres, filter=flt, native=native), finer, z, f, zres, flt, native)


def pick(k, per):
    return [(k * per + i) % len(VARIANTS) for i in range(per)]


def params(k):
    return ((20.0, 500.0, 3000.0, 64.0, 1000.0)[k % 5], (0.125, 0.5, 1.0)[k % 3], FILTERS[(k // 2) % 4], k % 4 != 1, k % 7 != 3, (np.float64, np.float32)[(k // 3) % 2])


def small(rec, shape, levels, wall, outlets, sh, n, step=1, per=4):
    k = -1
    for z in spaces.basins(shape, levels, wall, outlets, np.float64):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        j = k // step
        z = z + gold(shape, j)
        mm, zres, flt, accum, native, dtype = params(j)
        if dtype is np.float32 and wall > 100:
            dtype = np.float64
        rec.check(lambda: dict(dem=z, variants=pick(j, per), mm=mm, zresolution=zres, filter=flt, accum=accum, native=native, dtype=np.dtype(dtype).name),
                  evaluate, z, pick(j, per), mm, zres, flt, accum, native, dtype)


def all_levels(rec, shape, levels, sh, n, step=1, per=4):
    k = -1
    for z in spaces.grids(shape, levels, np.float64):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        j = k // step
        z = z + gold(shape, j)
        mm, zres, flt, accum, native, dtype = params(j)
        rec.check(lambda: dict(dem=z, variants=pick(j, per), mm=mm, zresolution=zres, filter=flt, accum=accum, native=native),
                  evaluate, z, pick(j, per), mm, zres, flt, accum, native, dtype)


def terrain(R, C, seed):
    """texture without ties: ranks of a pseudo terrain, smoothed so that large lakes form"""
    a = spaces.texture(R, C, seed, 1 << 20)
    b = np.pad(a, 2, mode="edge")
    a = sum(b[i:i + R, j:j + C] for i in range(5) for j in range(5)) if seed % 2 else a
    rank = np.empty(R * C)
    rank[np.argsort(a.ravel(), kind="stable")] = np.arange(R * C)
    return rank.reshape(R, C) / 256.0


def large(rec, R, C, seed, sh, n):
    z = terrain(R, C, seed)
    for v in range(len(VARIANTS)):
        if v % n != sh:
            continue
        mm, zres, flt, accum, native, dtype = params(v + seed)
        rec.check(dict(shape=(R, C), seed=seed, variant=v), evaluate, z, [v], mm, zres, flt, accum, True if R * C > 2000 else native, np.float64)


# ------------------------------------------------------------------------------------------------ commands
def chain(s, tag, z, tr, mm, zres):
    from .c19 import WKT
    import os
    o = s(tag)
    os.mkdir(o)
    write_tif(s(tag + ".tif"), z, tr, WKT)
    run_ok("complete", "-dem", s(tag + ".tif"), "-outdir", o, "-mm", repr(mm), "-zresolution", repr(zres), "-accum", "-vector")
    gp = os.path.join(o, "malstroem.gpkg")
    A = Run.__new__(Run)
    for k, f in (("filled", "filled"), ("depths", "bs_depths"), ("bs", "bluespots"), ("ws", "watersheds"), ("fd", "finaldepths"), ("fb", "finalbluespots"), ("acc", "accum"), ("flowdir", "flowdir")):
        setattr(A, k, read_tif(os.path.join(o, f + ".tif"))[0])
    A.pp = {x["properties"]["bspot_id"]: x for x in read_layer(gp, "pourpoints")}
    A.fin = {x["properties"]["nodeid"]: x["properties"] for x in read_layer(gp, "finalstate")}
    A.node = {p["bspot_id"]: i for i, p in A.fin.items() if p["nodetype"] == "pourpoint"}
    A.lv = {x["properties"]["bspot_id"]: x["properties"] for x in read_layer(gp, "finallevels")}
    A.hy = {x["properties"]["bspot_id"]: x["properties"] for x in read_layer(gp, "hypsometry")}
    A.polygons = {n: [(f["geometry"], f["properties"]) for f in read_layer(gp, n)] for n in ("bluespots", "watersheds", "finalbluespots")}
    return A


def polygon_areas(fs):
    """area by shoelace; independent of position"""
    def ring(r):
        x0, y0 = r[0]
        return abs(sum((a[0] - x0) * (b[1] - y0) - (b[0] - x0) * (a[1] - y0) for a, b in zip(r, r[1:]))) / 2
    out = []
    for g, p in fs:
        polys = g["coordinates"] if g["type"] == "MultiPolygon" else [g["coordinates"]]
        out.append(sum(ring(q[0]) - sum(ring(h) for h in q[1:]) for q in polys))
    return sorted(out)


def command(z, v, mm, zres):
    with Scratch() as s:
        A = chain(s, "a", z, BASE, mm, zres)
        turn, tr, shift, sx, sz = VARIANTS[v]
        shift = amount(shift, z)
        z2 = turn(z) * sz + shift
        tr2 = (tr[0], tr[1] * sx, 0.0, tr[3], 0.0, tr[5] * sx)
        B = chain(s, "b", z2, tr2, mm * sz, zres * sz)
        compare(A, B, turn, shift, sx, sz, A.tied(), float(np.abs(z).max()), zres * sz)
        # where flow is a choice the watersheds are, too
        for n in ("bluespots",) if A.tied() else ("bluespots", "watersheds"):
            a, b = polygon_areas(A.polygons[n]), polygon_areas(B.polygons[n])
            require(len(a) == len(b), "%d polygons in %s, expected %d", len(b), n, len(a))
            for p, q in zip(a, b):
                near(q, p * sx * sx, "area of a polygon in %s" % n, 1e-6)
    return 20


def commands(rec, sh, n):
    for v in range(len(VARIANTS)):
        if v % n != sh:
            continue
        z = terrain(9, 12, v + 1)
        rec.check(dict(command="complete", seed=v + 1, variant=v), command, z, v, (20.0, 1000.0)[v % 2], 0.5)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for i, seed in enumerate((1, 2, 3, 5)):
        J.add("texture", large, *((60, 70), (24, 31), (40, 33), (61, 17))[i], seed, SH, NS, n=2)
    J.add("commands", commands, SH, NS, n=4)
    J.add("4x4", small, (4, 4), [1, 2, 5], 5, spaces.single_outlets((4, 4), [2]), SH, NS, 1, 24 if T else 3, n=8)
    J.add("3x5", small, (3, 5), [1, 2, 4], 5, spaces.single_outlets((3, 5), [0, 2]), SH, NS, 1, 24 if T else 3, n=4)
    J.add("split", split, (4, 4), [1, 2, 5], 5, spaces.single_outlets((4, 4), [2]), SH, NS, 1 if T else 2, n=4)
    J.add("split-3x5", split, (3, 5), [1, 2, 4], 5, spaces.single_outlets((3, 5), [0, 2]), SH, NS, n=2)
    J.add("3x3", all_levels, (3, 3), [0, 1, 2], SH, NS, 1 if T else 5, 6, n=8)
    J.add("5x5", small, (5, 5), [1, 4], 5, spaces.single_outlets((5, 5), [2, 3]), SH, NS, 1 if T else 12, 3, n=8)
    if T:
        J.add("4x4-all", all_levels, (4, 4), [0, 2], SH, NS, 1, 3, n=16)
        J.add("3x4-all", all_levels, (3, 4), [0, 1, 2], SH, NS, 8, 3, n=16)
        J.add("4x5", small, (4, 5), [1, 2, 5], 5, spaces.single_outlets((4, 5), [2, 4]), SH, NS, 1, 4, n=16)
    return J
