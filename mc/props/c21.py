"""C21: results depend on the elevations, not on how the DEM file stores them."""
import itertools
import os
import shutil

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, run_ok, write_tif, read_tif, read_layer, layer_names
from .c19 import WKT, Chain

BOUNDS = ("DEMs x all combinations of number type, nodata coding, georeference (shift, cell size, row and column direction), coordinate system and file layout, through complete; all 3x4 DEMs over three "
          "levels, one of which is nodata, with the combinations taken in turn; single variations through the subcommands")
ASSUMPTIONS = ["elevations are representable in the number type and differ from the nodata value", "no filter by area or volume when the cell size changes", "GDAL writes the DEM variants"]

GT = "float32"
NODATA = {"uint8": [255, 0], "int16": [-32768, -9999], "uint16": [65535, 0], "int32": [-2147483648, -9999], "uint32": [4294967295, 0],
          "float32": [-9999.0, float("nan"), -3.4028234663852886e+38, 0.0], "float64": [-9999.0, float("nan"), -1.7976931348623157e+308, 1e20]}
GEO = [(0.0, 1.0, 0.0, 0.0, 0.0, -1.0), (720000.0, 1.0, 0.0, 6190000.0, 0.0, -1.0), (720000.0, 1.6, 0.0, 6190000.0, 0.0, -1.6), (-10.5, 0.25, 0.0, -20.25, 0.0, -0.25),
       (100.0, 25.0, 0.0, -3000.0, 0.0, -25.0), (12.345678912345, 0.400000733, 0.0, 55.676767676767, 0.0, -0.400000733), (-71.13571113, 1 / 1200.0, 0.0, 0.000123456, 0.0, -1 / 1200.0)]
FLIPPED = [(100.0, 25.0, 0.0, -3000.0, 0.0, 25.0), (500000.125, -2.0, 0.0, 7.0, 0.0, -2.0)]
STORE = [(), ("TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"), ("COMPRESS=DEFLATE",), ("COMPRESS=LZW", "TILED=YES", "BLOCKXSIZE=32", "BLOCKYSIZE=16"), ("BLOCKYSIZE=1",),
         ("ENDIANNESS=BIG",), ("BIGTIFF=YES", "COMPRESS=PACKBITS"), ("SPARSE_OK=YES",)]

AREAS = ("bspot_area", "bspot_vol", "wshed_area", "inputv", "v", "spillv", "cell_area")     # proportional to the cell area
RASTERS = ["filled", "flowdir", "bs_depths", "watersheds", "bluespots", "finaldepths", "finalbluespots", "accum"]


def elevations():
    """name, integer elevations with NaN in nodata cells"""
    from .c19 import A
    yield "nested", A.copy()
    B = spaces.texture(7, 9, 5, 9).astype(float) + 1
    B[0, 0] = B[3, 4] = B[3, 5] = np.nan
    yield "holes", B
    C = spaces.texture(20, 37, 7, 40).astype(float) + 3
    C[:, :3] = np.nan
    C[11, 20] = np.nan
    yield "margin", C
    D = np.full((4, 6), 7.0)
    D[1:3, 1:5] = [[3, 7, 2, 2], [5, 7, 6, 1]]
    yield "two", D
    yield "nothing", np.full((3, 4), np.nan)
    yield "fraction", np.where(np.arange(42).reshape(6, 7) == 17, np.nan, spaces.texture(6, 7, 2, 64) * 0.125 + 1)
    yield "centimetres", np.where(np.arange(56).reshape(8, 7) % 23 == 17, np.nan, np.float32(spaces.texture(8, 7, 3, 900) * 0.01 + 1).astype(float))


def whole(z):
    v = z[~np.isnan(z)]
    return (v == np.round(v)).all()


def store(path, z, dtype, nodata, geo, crs, options):
    data = np.where(np.isnan(z), -999 if nodata is None else nodata, z).astype(dtype)
    return write_tif(path, data, geo, crs, nodata, dtype, options)


def variants(z):
    holes = bool(np.isnan(z).any())
    for dt in sorted(NODATA):
        if dt[0] in "ui" and not whole(z):
            continue
        nd = list(NODATA[dt])
        if not (dt[0] == "u" and holes):
            nd.append(None)         # nodata cells have the value -999 themselves
            if dt[0] != "u":
                nd.append(-999)
        for d in nd:
            yield dt, d


def outcome_complete(root, path, geo, opts, crs=False):
    out = os.path.join(root, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.mkdir(out)
    args = ["complete", "-dem", path, "-outdir", out, "-mm", "20", "-zresolution", "0.5", "-accum"]
    if opts.get("vector"):
        args.append("-vector")
    if opts.get("filter"):
        args += ["-filter", opts["filter"]]
    run_ok(*args)
    R, crss = {}, {}
    for r in RASTERS:
        a, t, c, nd = read_tif(os.path.join(out, r + ".tif"))
        require(np.allclose(t, geo, rtol=1e-12, atol=1e-9), "%s.tif has geotransform %r, the DEM %r", r, t, geo)
        require(bool(c) == crs, "%s.tif: coordinate system is %r", r, c)
        R[r] = a
    gp = os.path.join(out, "malstroem.gpkg")
    return R, {l: layer(read_layer(gp, l), geo) for l in layer_names(gp)}


def layer(fs, geo):
    """Features in units of cells and cell areas"""
    area = abs(geo[1] * geo[5])
    out = []
    for f in fs:
        p = dict(f["properties"])
        for k in AREAS:
            if p.get(k) is not None:
                p[k] = p[k] / area
        out.append((p, pixels(f.get("geometry"), geo)))
    key = lambda q: tuple((q[0].get(k) is None, q[0].get(k) or 0) for k in ("nodeid", "bspot_id")) + (repr(q[1]),)
    return sorted(out, key=key)


def pixels(g, geo):
    if g is None:
        return None
    pts = []

    def walk(c):
        if isinstance(c[0], (int, float)):
            pts.append((round((c[0] - geo[0]) / geo[1], 4) + 0.0, round((c[1] - geo[3]) / geo[5], 4) + 0.0))
        else:
            for x in c:
                walk(x)
    walk(g["coordinates"])
    if "Polygon" in g["type"]:
        pts = sorted(set(pts))      # rings may start anywhere and have any orientation
    return [g["type"]] + pts


def compare(got, want, flipped=False):
    R0, L0 = want
    R, L = got
    shallow = np.maximum(R["finaldepths"], R0["finaldepths"]) <= 1e-5 if "finaldepths" in R0 and R["finaldepths"].shape == R0["finaldepths"].shape else True
    ties = False
    for r in R0:
        a, b = R[r], R0[r]
        require(a.shape == b.shape, "%s has shape %r instead of %r", r, a.shape, b.shape)
        a, b = a.astype(np.float64), b.astype(np.float64)
        if r == "finaldepths":
            bad = np.abs(a - b) > 1e-6 * max(1.0, float(np.abs(b).max()))
        elif r == "finalbluespots":
            bad = (a != b) & ~shallow
            ties = bool((a != b).any())
        else:
            bad = a != b
        if bad.any():
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Problem("%s depends on how the DEM is stored: %r at %r, %r for the plain DEM (%d cells differ)" % (r, a[k], k, b[k], int(bad.sum())))
    require(set(L) == set(L0), "layers %s, plain DEM gives %s", sorted(L), sorted(L0))
    for l in L0:
        if l == "finalbluespots" and ties:
            continue
        a, b = L[l], L0[l]
        require(len(a) == len(b), "%s has %d features, for the plain DEM %d", l, len(a), len(b))
        for (p, g), (q, h) in zip(a, b):
            require(set(p) == set(q), "%s has attributes %s instead of %s", l, sorted(p), sorted(q))
            for k in q:
                x, y = p[k], q[k]
                ok = x == y or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y)))
                require(ok, "%s: %s depends on how the DEM is stored: %r instead of %r (areas and volumes in cells)", l, k, x, y)
            require(g == h, "%s: geometry depends on how the DEM is stored: %r instead of %r (in cells)", l, (g or [])[:6], (h or [])[:6])


class Bases(object):
    def __init__(self, root, run):
        self.root, self.run, self.last = root, run, None

    def get(self, name, z, opts):
        k = (name, z.tobytes(), repr(sorted(opts.items())))
        if self.last is None or self.last[0] != k:
            p = store(os.path.join(self.root, "base.tif"), z, "float32", None, GEO[0], "", ())
            self.last = k, self.run(self.root, p, GEO[0], opts)
        return self.last[1]


def evaluate(bases, name, z, v, opts):
    dt, nd, geo, crs, options = v
    want = bases.get(name, z, opts)
    p = store(os.path.join(bases.root, "dem.tif"), z, dt, nd, geo, WKT if crs else "", options)
    got = bases.run(bases.root, p, geo, opts, crs=bool(crs))
    compare(got, want)
    return 2, (name, repr(v))


def describe(name, v, opts):
    return dict(dem=name, type=v[0], nodata=repr(v[1]), geotransform=v[2], crs=bool(v[3]), layout=v[4], options=opts)


def product(rec, ix, sh, n, step, run=outcome_complete):
    name, z = list(elevations())[ix]
    root = rec.fresh()
    b = Bases(root, run)
    k = -1
    for opts in (dict(vector=True), dict(filter="maxdepth > 2")):
        for dt, nd in variants(z):
            for geo in GEO + FLIPPED:
                for crs in (0, 1):
                    for o in STORE:
                        k += 1
                        if k % step or (k // step) % n != sh:
                            continue
                        v = (dt, nd, geo, crs, o)
                        rec.check(lambda: describe(name, v, opts), evaluate, b, name, z, v, opts)


def single(rec, ix, run, sh=0, n=1):
    """Each aspect alone, and all pairs of values of number type, nodata and georeference"""
    name, z = list(elevations())[ix]
    root = rec.fresh()
    b = Bases(root, run)
    for opts in (dict(vector=True), dict(filter="maxdepth > 2")):
        V = [(dt, nd, GEO[0], 0, ()) for dt, nd in variants(z)]
        V += [("float32", None, g, 0, ()) for g in GEO + FLIPPED] + [("float32", None, GEO[0], 1, ())] + [("float32", None, GEO[0], 0, o) for o in STORE]
        V += [(dt, nd, GEO[2 + k % 3], k % 2, STORE[k % len(STORE)]) for k, (dt, nd) in enumerate(variants(z))]
        for k, v in enumerate(V):
            if k % n == sh:
                rec.check(lambda: describe(name, v, opts), evaluate, b, name, z, v, opts)


def outcome_steps(root, path, geo, opts, crs=False):
    """The subcommands one by one"""
    d = os.path.join(root, "steps")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    shutil.copy(path, os.path.join(d, "dem.tif"))
    o = dict(opts, zres=0.5, accum=opts.get("accum", False), scenarios=["mm:20"])
    chain = Chain(o)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for x in chain.order:
            run_ok(*chain.steps[x][1])
    finally:
        os.chdir(cwd)
    R, L = {}, {}
    names = {"depths.tif": "bs_depths", "bs.tif": "bluespots", "ws.tif": "watersheds", "fd.tif": "finaldepths", "fb.tif": "finalbluespots"}
    for a in chain.outputs(chain.order):
        if a.endswith(".tif"):
            v, t, c, _ = read_tif(os.path.join(d, a))
            require(np.allclose(t, geo, rtol=1e-12, atol=1e-9), "%s has geotransform %r, the DEM %r", a, t, geo)
            require(bool(c) == crs, "%s: coordinate system is %r", a, c)
            R[names.get(a, a[:-4])] = v
        else:
            p, l = chain.layers[a]
            L[a] = layer(read_layer(os.path.join(d, p), l), geo)
    return R, L


def small(rec, shape, levels, sh, n, step):
    """All DEMs over some levels (None: nodata)"""
    root = rec.fresh()
    b = Bases(root, outcome_complete)
    V = None
    k = -1
    for z in spaces.grids(shape, levels, np.float64):
        k += 1
        if k % step or (k // step) % n != sh:
            continue
        j = k // step
        Z = np.where(z < 0, np.nan, z)
        vs = list(variants(Z))
        dt, nd = vs[(j * 5) % len(vs)]
        v = (dt, nd, (GEO + FLIPPED)[j % 9], j % 2, STORE[(j // 7) % len(STORE)])
        opts = (dict(vector=True), dict(), dict(filter="maxdepth > 2"))[j % 3]
        rec.check(lambda: dict(describe("", v, opts), dem=np.where(np.isnan(Z), -999, Z)), evaluate, b, "grid", Z, v, opts)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for ix in range(7):
        J.add("single-%d" % ix, single, ix, outcome_complete, SH, NS, n=4 if ix == 2 else 1)
        J.add("steps-%d" % ix, single, ix, outcome_steps, SH, NS, n=3 if ix != 4 else 1)
    for ix in (1, 3, 5):
        J.add("product-%d" % ix, product, ix, SH, NS, 1 if T else 21, n=8)
    J.add("3x4", small, (3, 4), [-1, 2, 5], SH, NS, 101 if T else 2003, n=8)
    if T:
        for ix in (0, 2, 4, 6):
            J.add("product-%d" % ix, product, ix, SH, NS, 3, n=8)
    return J
