"""C12: hypsometry counts every bluespot cell exactly once between true bounds."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import (Jobs, SH, NS, use, MemRaster, MemVector, require_close, TRANSFORMS, cell_area, Scratch, write_tif, read_layer, run_ok)

BOUNDS = ("all 2x2 ID rasters x all DEMs over six elevations (negative, zero, on bin boundaries, far apart) x eight bin widths x offsets; all 2x3 ID rasters with two bluespots "
          "over three elevations; number types; up to 1200000 cells, 66000 IDs and 1.3 million bins; hyps command with GeoPackage, GeoJSON and CSV")
ASSUMPTIONS = ["every ID up to the largest occurs in the raster and has a pour point", "a cell within rounding (3e-7 relative) of a bin boundary may be counted on either side"]
RES = [1.0, 0.1, 0.25, 0.05, 3.0, 1000.0, 0.3, 1 / 3.0]


def pour_points(n):
    return [dict(type="Feature", id=i, geometry=dict(type="Point", coordinates=[i + 0.5, -i - 0.5]),
                 properties=dict(bspot_id=i, cell_row=i, cell_col=3, bspot_dmax=0.5 * i, bspot_area=2.0 * i, bspot_vol=1.25 * i, wshed_area=5.0, bspot_fumm=0.1 * i)) for i in range(n + 1)]


def check(feats, src, lab, dem, res, area, tol=0.0):
    from malstroem.hyps import hypsometrystats_from_flatdict
    n = int(lab.max())
    require(len(feats) == n + 1, "%d features, expected %d", len(feats), n + 1)
    idx = {int(f["properties"]["bspot_id"]): f["properties"] for f in feats}
    fl, fd = lab.ravel(), dem.ravel().astype(np.float64)
    for i in range(n + 1):
        require(i in idx, "no hypsometry for bluespot %d", i)
        q = idx[i]
        for k, v in src[i]["properties"].items():
            w = q.get(k)
            require(w is not None and abs(float(w) - v) <= tol * max(1, abs(v)), "bluespot %d: attribute %s changed from %r to %r", i, k, v, w)
        require_close(float(q["cell_area"]), area, "cell_area")
        z = np.sort(fd[fl == i])
        h = hypsometrystats_from_flatdict(q)
        if len(z):
            require(abs(h.zmin - z[0]) <= tol * max(1, abs(z[0])) and abs(h.zmax - z[-1]) <= tol * max(1, abs(z[-1])),
                    "bluespot %d: zmin, zmax are %r, %r, expected %r, %r", i, h.zmin, h.zmax, z[0], z[-1])
        if i == 0:
            continue
        b, counts = h.zhistogram.bins, np.array(h.zhistogram.counts)
        require(len(counts) == b.num_bins >= 1, "bluespot %d: %d counts, %r bins", i, len(counts), b.num_bins)
        require(abs(b.resolution - res) <= tol * res, "bluespot %d: bin width %r, expected %r", i, b.resolution, res)
        m = max(abs(b.lower_bound), abs(b.upper_bound), res)
        require(abs(b.lower_bound + b.num_bins * res - b.upper_bound) <= 1e-9 * m, "bluespot %d: %r bins of %r do not lead from %r to %r", i, b.num_bins, res, b.lower_bound, b.upper_bound)
        require(b.lower_bound - tol * m <= z[0] and z[-1] <= b.upper_bound + tol * m, "bluespot %d: bounds %r, %r do not contain %r..%r", i, b.lower_bound, b.upper_bound, z[0], z[-1])
        require((counts >= 0).all() and counts.sum() == len(z), "bluespot %d: counts %r add up to %d, the bluespot has %d cells", i, counts[:30].tolist(), counts.sum(), len(z))
        edges = b.lower_bound + res * np.arange(1, b.num_bins)
        eps = 3e-7 * m
        cum = np.cumsum(counts)[:-1]
        lo, hi = np.searchsorted(z, edges - eps, "left"), np.searchsorted(z, edges + eps, "right")
        bad = (cum < lo) | (cum > hi)
        if bad.any():
            k = int(np.argmax(bad))
            raise Problem("bluespot %d: %d cells counted below %r, there are %d..%d" % (i, cum[k], edges[k], lo[k], hi[k]))
    return tuple(sorted((i, q["hist_counts"]) for i, q in idx.items()))


def evaluate(lab, dem, res, tr=TRANSFORMS[0]):
    from malstroem.hyps import bluespot_hypsometry_io
    src = pour_points(int(lab.max()))
    out = MemVector()
    l0, d0 = lab.copy(), dem.copy()
    bluespot_hypsometry_io(MemRaster(lab, tr), MemRaster(dem, tr), MemVector(src), res, out)
    same(lab, l0, "ID raster")
    same(dem, d0, "DEM")
    o = check(out.out, src, lab, dem, res, cell_area(tr))
    return 1, (res, o) if lab.size < 20 else None


LEVELS = [-2.5, -0.1, 0.0, 0.1, 0.3, 7.25]


def small(rec, offset, sh, n, native, step=1):
    use(native)
    k = 0
    for lab in spaces.grids((2, 2), [0, 1], np.int32):
        if not lab.any():
            continue
        for dem in spaces.grids((2, 2), LEVELS, np.float64):
            if (dem[lab == 0] != 0).any():
                continue
            k += 1
            if k % n != sh:
                continue
            for q, res in enumerate(RES):
                if (k // n + q) % step:
                    continue
                d = (dem + offset).astype(np.float32 if (k // n + q) % 2 else np.float64)
                tr = TRANSFORMS[(k // n) % 6]
                rec.check(lambda: dict(ids=lab, dem=d, resolution=res, transform=tr, native=native), evaluate, lab, d, res, tr)


def two(rec, levels, sh, n, native, step=1):
    use(native)
    k = 0
    for lab in spaces.grids((2, 3), [0, 1, 2], np.int32):
        if set(lab.ravel().tolist()) not in ({0, 1, 2}, {1, 2}):
            continue
        for dem in spaces.grids((2, 3), levels, np.float32):
            k += 1
            if k % n != sh or (k // n) % step:
                continue
            res = RES[(k // n) % 8]
            ldt = (np.int32, np.uint8, np.int64, np.int32, np.uint16)[(k // n) % 5]
            L = lab.astype(ldt)
            rec.check(lambda: dict(ids=L, dem=dem, resolution=res, native=native), evaluate, L, dem, res)


def types(rec, native, sh, n):
    use(native)
    k = 0
    for dt in (np.int16, np.int32, np.uint8, np.uint16, np.float32, np.float64):
        for ldt in (np.int32, np.uint8, np.int16, np.int64):
            for vals in ([0, 1, 200], [5, 5, 5], [100, 101, 250], [-30000, -1, 30000]):
                if np.dtype(dt).kind == "u" and min(vals) < 0:
                    continue
                for dem in spaces.grids((2, 3), vals, dt):
                    k += 1
                    if k % n != sh:
                        continue
                    lab = np.array([[1, 0, 2], [1, 1, 2]], ldt)
                    res = RES[int(abs(int(dem[0, 0])) + int(dem[1, 1])) % 6]
                    while max(vals) - min(vals) > 300 * res:
                        res *= 7
                    rec.check(lambda: dict(ids=lab, dem=dem, resolution=res, native=native), evaluate, lab, dem, res)


MAGNITUDES = [(8848.86, 0.01), (-11034.0, 0.05), (0.0004, 0.0001), (123456.0, 0.5), (-0.05, 0.1), (999.95, 0.05), (2.0, 0.001)]


def magnitudes(rec, native):
    use(native)
    for (z0, res), dt in itertools.product(MAGNITUDES, (np.float32, np.float64)):
        for steps in itertools.product((0, 0.5, 1, 1.5, 7, 7.999), repeat=3):
            dem = np.array([[z0] + [z0 + s * res for s in steps]] * 2, dt)
            lab = np.array([[1, 1, 1, 1], [0, 2, 2, 3]], np.int32)
            rec.check(lambda: dict(ids=lab, dem=dem, resolution=res, native=native), evaluate, lab, dem, res)


def big(rec, native):
    use(native)
    for R, C, m, lv, res in ((1200, 1000, 1, 2, 3.0), (1200, 1000, 1, 2, 0.01), (300, 300, 2, 3, 5.0), (500, 500, 1, 1000, 0.01), (500, 500, 3000, 50, 0.3), (300, 230, 66000, 50, 0.3), (60, 50, 7, 10 ** 6, 10.0), (6, 5, 2, 1300000, 1.0), (30, 40, 300, 9, 0.1)):
        if not native and R > 100:
            continue
        lab = (np.arange(R * C) * 7919 % (m + 1)).reshape(R, C).astype(np.int32)
        if R == 1200:
            lab[:, 7:] = 1
        for dt in (np.float32, np.float64):
            dem = (spaces.texture(R, C, 3, lv) * (1 if lv > 10 ** 5 else 0.37) - 11).astype(dt)
            rec.check(dict(shape=(R, C), ids=m, resolution=res, native=native), evaluate, lab, dem, res)


def command(lab, dem, res, fmt):
    src = pour_points(int(lab.max()))
    with Scratch() as s:
        import json
        with open(s("pourpoints.geojson"), "w") as f:
            json.dump(dict(type="FeatureCollection", features=src), f)
        write_tif(s("ids.tif"), lab, nodata=0)
        write_tif(s("dem.tif"), dem, nodata=-9999)
        d = np.where(dem == -9999, -999, dem)
        out = s({"gpkg": "h.gpkg", "GeoJSON": "h.geojson", "CSV": "h.csv"}[fmt])
        args = ["hyps", "-bluespots", s("ids.tif"), "-dem", s("dem.tif"), "-pourpoints", s("pourpoints.geojson"), "-pourpoints_layer", "pourpoints", "-zresolution", res,
                "-out", out, "-format", fmt]
        if fmt == "gpkg":
            args += ["-out_hyps_layer", "hyps"]
        run_ok(*args)
        from malstroem.io import VectorReader
        check(VectorReader(out, "hyps" if fmt == "gpkg" else None).read_geojson_features(), src, lab, d, res, 1.0, 1e-12)
    return 1


def commands(rec, sh, n):
    k = 0
    lab = np.array([[1, 0, 2], [1, 1, 2]], np.int32)
    for dem in spaces.grids((2, 3), [-9999, -0.7, 0.1, 55.125], np.float32):
        k += 1
        if k % 61 or (k // 61) % n != sh:
            continue
        res = (0.5, 0.1, 2.0, 10.0)[k % 4]
        for fmt in ("gpkg", "GeoJSON", "CSV"):
            d = dem.astype((np.float32, np.float64)[k % 2])
            rec.check(lambda: dict(command="hyps", dem=d, resolution=res, format=fmt), command, lab, d, res, fmt)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for nat in (True, False):
        for off in (0.0, 100.7, -999.0):
            J.add("2x2+%g-%s" % (off, nat), small, off, SH, NS, nat, 1 if nat else 5, n=4)
        J.add("types-%s" % nat, types, nat, SH, NS, n=6)
        J.add("magnitudes-%s" % nat, magnitudes, nat)
        J.add("big-%s" % nat, big, nat)
        J.add("2x3-%s" % nat, two, [-0.2, 0.0, 0.45], SH, NS, nat, 12 if nat else 60, n=8)
    J.add("commands", commands, SH, NS, n=4)
    if T:
        J.add("2x3-all", two, [-0.2, 0.0, 0.45], SH, NS, True, 1, n=64)
        J.add("2x3-b", two, [99.95, 100.05, 101.0], SH, NS, True, 3, n=64)
        for off in (0.05, 8848.86):
            J.add("2x2+%g" % off, small, off, SH, NS, False, 1, n=16)
    return J
