"""C14: final depth and extent rasters are exactly the water above the terrain."""
import itertools
import json
import numpy as np
from .. import spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, MemRaster, MemVector, TRANSFORMS, Scratch, write_tif, read_tif, run_ok

BOUNDS = ("all 2x2 rasters of IDs 0..2 x all DEMs over four elevations x all pairs of levels over six values (below, on and above the terrain) (also far below zero) x number types x every combination of "
          "requested outputs; all 2x3 rasters over smaller alphabets; up to 250000 cells and 66000 bluespots; finalbluespots command on files")
ASSUMPTIONS = ["every ID in the raster has a level"]


def levels_features(lv, order=0):
    fs = [dict(type="Feature", geometry=None, properties=dict(nodeid=i, nodetype="pourpoint", bspot_id=i, v=1.0, approx_z=float(z), approx_dmax=0.5)) for i, z in enumerate(lv)]
    return fs[::-1] if order else fs


def expected(lab, dem, lv):
    L = np.asarray(lab).astype(np.int64)
    d = np.asarray(dem).astype(np.float64)
    w = np.asarray(lv, np.float64)[L]
    wet = (L != 0) & (w - d > 0)
    return np.where(wet, w - d, 0.0), np.where((L != 0) & (w >= d), L, 0)


def close_depths(got, want, dem, lv):
    require(got.shape == want.shape, "depths have shape %r, expected %r", got.shape, want.shape)
    tol = 1e-9 * max(1.0, float(np.abs(np.asarray(dem, np.float64)).max()), float(np.abs(np.asarray(lv)).max()))
    bad = ~(np.abs(got.astype(np.float64) - want) <= tol)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Problem("final depth at %r is %r, expected %r (%d cells differ)" % (k, got[k].item(), want[k].item(), int(bad.sum())))


def evaluate(lab, dem, lv, order=0):
    from malstroem.approx import approx_bluespots_io, approx_bluespots
    depth, extent = expected(lab, dem, lv)
    n = 0
    for both in ((1, 1), (1, 0), (0, 1)):
        lr, dr = MemRaster(lab), MemRaster(dem)
        l0, d0 = lab.copy(), dem.copy()
        dw, bw = (MemRaster() if both[0] else None), (MemRaster() if both[1] else None)
        approx_bluespots_io(lr, MemVector(levels_features(lv, order)), dr, dw, bw)
        same(lab, l0, "ID raster")
        same(dem, d0, "DEM")
        same(lr.read(), l0, "ID raster read again")
        same(dr.read(), d0, "DEM read again")
        if dw:
            close_depths(dw.out, depth, dem, lv)
        if bw:
            same(bw.out, extent, "final bluespots")
        n += 1
    l1, d1 = lab.copy(), dem.copy()
    got = approx_bluespots(l1, dict((i, z) for i, z in enumerate(lv) if i or order), d1)
    same(d1, dem, "DEM")
    close_depths(got[1], depth, dem, lv)
    same(got[0], extent, "final bluespots of approx_bluespots")
    return n + 1, (depth.tobytes(), extent.tobytes()) if lab.size <= 6 else None


LTYPES = (np.int32, np.uint8, np.int16, np.uint16, np.int64, np.uint32)
DTYPES = (np.float32, np.float64)


def small(rec, shape, ids, elev, levels, sh, n, step=1):
    k = 0
    for lab in spaces.grids(shape, ids, np.int32):
        m = int(lab.max())
        if m == 0 or set(range(1, m + 1)) - set(lab.ravel().tolist()):
            continue
        for dem in spaces.grids(shape, elev, np.float64):
            for lv in itertools.product(levels, repeat=m):
                k += 1
                if k % n != sh or (k // n) % step:
                    continue
                j = k // n
                L, d = lab.astype(LTYPES[j % 6]), dem.astype(DTYPES[j % 2])
                z = [(0.0, -999.0, 12.5)[j % 3]] + [float(np.float32(q)) if j % 2 == 0 else q for q in lv]
                rec.check(lambda: dict(ids=L, dem=d, levels=z), evaluate, L, d, z, j % 2)


def integers(rec):
    for dt in (np.int16, np.int32, np.uint8):
        for dem in spaces.grids((2, 2), [0, 1, 5, 200], dt):
            lab = np.array([[1, 0], [2, 1]], np.int32)
            for lv in ([0.0, 1.0, 4.5], [0.0, 5.0, 200.25]):
                rec.check(lambda: dict(ids=lab, dem=dem, levels=lv), evaluate, lab, dem, lv)


def big(rec):
    for R, C, m in ((500, 500, 5000), (500, 500, 1), (1, 400, 7), (400, 1, 300), (257, 300, 40), (300, 230, 66000)):
        for dt in LTYPES:
            if m > np.iinfo(dt).max:
                continue
            lab = (np.arange(R * C) * 7919 % (m + 1)).reshape(R, C).astype(dt)
            dem = (spaces.texture(R, C, 3, 1000) * 0.01 - 3).astype(np.float32)
            lv = [0.0] + [float(np.float32((i * 37 % 1000) * 0.01 - 3)) for i in range(m)]
            rec.check(dict(shape=(R, C), ids=m, type=np.dtype(dt).name), evaluate, lab, dem, lv)
            for name, L in spaces.layouts(lab):
                rec.check(dict(shape=(R, C), ids=m, layout=name), evaluate, L, dem, lv)


def command(lab, dem, lv, outputs, fmt, tr, nodata):
    depth, extent = expected(lab, np.where(dem == nodata, -999, dem) if nodata is not None else dem, lv)
    with Scratch() as s:
        with open(s("lv.geojson"), "w") as f:
            json.dump(dict(type="FeatureCollection", features=levels_features(lv)), f)
        write_tif(s("ids.tif"), lab, tr, nodata=0)
        write_tif(s("dem.tif"), dem, tr, nodata=nodata)
        args = ["finalbluespots", "-bluespots", s("ids.tif"), "-dem", s("dem.tif"), "-finallevels", s("lv.geojson"), "-finallevels_layer", "lv"]
        if outputs[0]:
            args += ["-out_depths", s("depths.tif")]
        if outputs[1]:
            args += ["-out_bluespots", s("bs.tif")]
        with open(s("ids.tif"), "rb") as f, open(s("dem.tif"), "rb") as g:
            before = f.read(), g.read()
        run_ok(*args)
        with open(s("ids.tif"), "rb") as f, open(s("dem.tif"), "rb") as g:
            require(before == (f.read(), g.read()), "an input file was changed")
        if outputs[0]:
            got, t, _, nd = read_tif(s("depths.tif"))
            close_depths(got, depth, depth, lv)
            require(np.allclose(t, tr), "depths: geotransform %r, expected %r", t, tr)
        if outputs[1]:
            got, t, _, nd = read_tif(s("bs.tif"))
            same(got, extent, "final bluespots")
            require(np.allclose(t, tr), "final bluespots: geotransform %r, expected %r", t, tr)
            require(nd == 0, "final bluespots: nodata is %r", nd)
    return 1


def commands(rec, sh, n):
    k = 0
    lab = np.array([[1, 0, 2], [1, 1, 2]], np.int32)
    for dem in spaces.grids((2, 3), [-9999, -0.5, 0.25, 55.125], np.float32):
        k += 1
        if k % 67 or (k // 67) % n != sh:
            continue
        for lv in ([0.0, 0.25, 1.0], [0.0, 60.0, -0.5]):
            for outputs in ((1, 1), (1, 0), (0, 1)):
                L, d, tr = lab.astype((np.int32, np.uint8)[k % 2]), dem.astype(DTYPES[k % 2]), TRANSFORMS[1:4][k % 3]
                rec.check(lambda: dict(command="finalbluespots", ids=L, dem=d, levels=lv, outputs=outputs), command, L, d, lv, outputs, "gpkg", tr, -9999)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("2x2", small, (2, 2), [0, 1, 2], [-0.5, 0.0, 0.7, 103.25], [-0.6, -0.5, 0.0, 0.35, 0.7, 104.0], SH, NS, 1 if T else 4, n=8)
    J.add("2x3", small, (2, 3), [0, 1], [-0.5, 0.7], [-0.5, 0.0, 0.7, 2.5], SH, NS, n=4)
    J.add("deep", small, (2, 2), [0, 1, 2], [-10911.5, -1500.25, -999.0, 3.5], [-12000.0, -10911.5, -1400.0, 4.0], SH, NS, 1 if T else 4, n=4)
    J.add("nodata", small, (2, 2), [0, 1, 2], [-999, 3.3], [-999.0, -998.0, 3.3, 3.4], SH, NS, 1 if T else 3, n=4)
    J.add("integers", integers)
    J.add("big", big)
    J.add("commands", commands, SH, NS, n=4)
    if T:
        J.add("2x3-ids", small, (2, 3), [0, 1, 2], [-0.5, 0.7], [-0.5, 0.0, 0.7], SH, NS, n=16)
        J.add("3x3", small, (3, 3), [0, 1], [0.0, 0.7], [0.0, 0.35, 0.7], SH, NS, 3, n=16)
    return J
