"""C15: raster files round-trip values, georeference and nodata exactly."""
import itertools
import numpy as np
from .. import spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, Scratch, TRANSFORMS

BOUNDS = ("all 2x2 arrays over five to six extreme values of each of 12 number types, in every memory layout; 30 shapes around the tile size; georeferences, coordinate systems and "
          "nodata values; all 2x2 arrays x nodata values x substitutes per type, written with the writer and with GDAL in other tilings and compressions; repeated writes and reads")
ASSUMPTIONS = ["GeoTIFF (the format the writer produces)"]

DIRECT = {"uint8": [0, 1, 127, 128, 255], "int16": [-32768, -1, 0, 255, 32767], "uint16": [0, 255, 256, 32768, 65535],
          "int32": [-2147483648, -1, 0, 65536, 2147483647], "uint32": [0, 1, 65536, 2147483648, 4294967295],
          "float32": [float("nan"), float("inf"), -3.4028234663852886e38, 1e-45, 0.1], "float64": [float("nan"), float("-inf"), 1.7976931348623157e308, 5e-324, 0.1]}
CAST = {"int8": [-128, -1, 0, 1, 127],
        "int64": [-2147483649, -2147483648, -32769, -32768, -1, 0, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296],
        "uint64": [0, 255, 256, 65535, 65536, 4294967295, 4294967296, 18446744073709551615],
        "bool": [0, 1]}


def wkt(epsg):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s.ExportToWkt()


def same_crs(a, b):
    from osgeo import osr
    if not a or not b:
        return not a and not b
    x, y = osr.SpatialReference(), osr.SpatialReference()
    x.ImportFromWkt(a)
    y.ImportFromWkt(b)
    return bool(x.IsSame(y))


def same_values(got, want, what):
    """Exact, across number types"""
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape, "%s: shape %r, expected %r", what, got.shape, want.shape)
    if got.size > 2000 or got.dtype == want.dtype:
        same(got, want, what)
        return
    for k in np.ndindex(got.shape):
        a, b = got[k].item(), want[k].item()
        if not (a == b or (a != a and b != b)):
            raise Problem("%s at %r is %r, expected %r" % (what, k, a, b))


NAME = [0]


def path():
    NAME[0] += 1
    return "/vsimem/mc-%d.tif" % (NAME[0] % 50)


def roundtrip(a, tr=TRANSFORMS[1], crs="", nodata=None, direct=True, fn=None):
    from malstroem.io import RasterReader, RasterWriter
    p = fn or path()
    before = a.copy()
    w = RasterWriter(p, tr, crs, nodata)
    w.write(a)
    same(a, before, "array given to the writer")
    r = RasterReader(p)
    got = r.read()
    same_values(got, before, "raster read back")
    if direct:
        require(got.dtype == before.dtype, "type of the raster read back is %r, expected %r", got.dtype.name, before.dtype.name)
    require(r.shape == before.shape, "shape is %r, expected %r", r.shape, before.shape)
    require(tuple(r.transform) == tuple(tr), "transform is %r, expected %r", r.transform, tr)
    require(r.resolution == (abs(tr[5]), abs(tr[1])), "resolution is %r", r.resolution)
    require(same_crs(r.crs, crs), "coordinate system is %r, expected %r", r.crs, crs)
    if nodata is None:
        require(r.nodata is None, "nodata is %r, expected none", r.nodata)
    else:
        require(r.nodata == nodata or (r.nodata != r.nodata and nodata != nodata), "nodata is %r, expected %r", r.nodata, nodata)
    out = (got.dtype.name, got.tobytes()) if got.size < 20 else None
    got[...] = 1    # arrays read belong to the caller
    r2 = r.read()
    same_values(r2, before, "raster read a second time, after the first array was changed")
    a2 = r2.copy()
    got[...] = 0
    same_values(r2, a2, "second array after the first was changed")
    return 2, out


def refused_or_exact(a, tr=TRANSFORMS[0]):
    """Values beyond 32 bit: an error, or exact values; never a truncated raster"""
    from malstroem.io import RasterReader, RasterWriter
    p = path()
    try:
        RasterWriter(p, tr, "").write(a)
    except Exception:
        return 1, "refused"
    same_values(RasterReader(p).read(), a, "raster read back")
    return 2, "exact"


def direct(rec, dt):
    for j, a in enumerate(spaces.grids((2, 2), DIRECT[dt], np.dtype(dt))):
        rec.check(lambda: dict(type=dt, array=a), roundtrip, a, TRANSFORMS[j % 5])


def casts(rec, dt, sh, n):
    vals = CAST[dt]
    k = 0
    for v in itertools.product(vals, repeat=2):
        for u in ((v[0], v[1]), (0, 1), (v[1], vals[-1])):
            k += 1
            if k % n != sh:
                continue
            a = np.array([v, u], dtype=object).astype(dt)
            lo, hi = min(int(x) for x in a.ravel()), max(int(x) for x in a.ravel())
            fits = -2 ** 31 <= lo and hi < (2 ** 32 if lo >= 0 else 2 ** 31)
            rec.check(lambda: dict(type=dt, array=a), *((roundtrip, a, TRANSFORMS[1], "", None, False) if fits else (refused_or_exact, a)))


def halves(rec):
    vals = np.array([0.5, -65504, 65504, 6e-8, 0.1], np.float16)
    for ix in itertools.product(range(5), repeat=4):
        a = vals[list(ix)].reshape(2, 2)
        rec.check(lambda: dict(type="float16", array=a), roundtrip, a, TRANSFORMS[1], "", None, False)


SIZES = sorted(set(itertools.product((1, 2, 255, 256, 257, 513), repeat=2)))


def sizes(rec, sh, n):
    k = 0
    for (R, C), dt in itertools.product(SIZES, list(DIRECT) + ["int64", "uint64", "int8", "bool"]):
        k += 1
        if k % n != sh:
            continue
        a = (np.arange(R * C, dtype=np.int64) * 2654435761 % 65521 % 251 - (100 if np.dtype(dt).kind in "if" and dt != "int8" else 0)).reshape(R, C)
        a = (a % 120).astype(dt) if dt == "int8" else (a % 2).astype(dt) if dt == "bool" else a.astype(dt)
        if dt.startswith("float"):
            a = (a * 0.37).astype(dt)
        rec.check(dict(shape=(R, C), type=dt), roundtrip, a, TRANSFORMS[1], "", None, dt in DIRECT)


def memory(rec):
    for dt in list(DIRECT) + ["int64", "int8", "bool"]:
        for R, C in ((3, 4), (300, 7), (64, 257)):
            a = (np.arange(R * C) * 7 % 2).reshape(R, C).astype(dt) if dt == "bool" else (np.arange(R * C) * 7 % 120).reshape(R, C).astype(dt)
            for name, b in spaces.layouts(a):
                rec.check(dict(shape=(R, C), type=dt, layout=name), roundtrip, b, TRANSFORMS[2], "", None, dt in DIRECT)


def georeference(rec):
    a = np.arange(6, dtype=np.float32).reshape(2, 3)
    trs = TRANSFORMS[:5] + [(1e7 + 1e-7, 1e-5, 0, -1e7, 0, -1e-5), (0.5, 1.0, 0.25, 3.0, -0.5, -2.0), (3.0, 30.0, 0.0, -7.0, 0.0, -10.0)]
    trs = [tuple(float(x) for x in t) for t in trs]
    for t, e in itertools.product(trs, (None, 25832, 4326, 3857, 27700, 3395, 25833)):
        for dt in ("float32", "uint8", "int32", "float64"):
            rec.check(dict(transform=t, epsg=e, type=dt), roundtrip, a.astype(dt), t, wkt(e) if e else "")
    for dt, nds in (("float32", [0.0, -999.0, -9999.5, float("nan"), -3.4028234663852886e38, float("inf")]), ("float64", [0.0, 0.1, -1.7976931348623157e308, float("nan")]),
                    ("uint8", [0, 255, 7]), ("int16", [-32768, -999, 0, 32767]), ("uint16", [0, 65535]), ("int32", [-2147483648, 0, 2147483647]), ("uint32", [0, 4294967295])):
        for nd in nds:
            for e in (None, 25832):
                rec.check(dict(nodata=nd, type=dt, epsg=e), roundtrip, a.astype(dt), TRANSFORMS[1], wkt(e) if e else "", nd)


def rewrite(x, y, z, crs):
    """One writer used again, and another writer on the same file"""
    from malstroem.io import RasterReader, RasterWriter
    p = path()
    w = RasterWriter(p, TRANSFORMS[1], crs, 0)
    for a in (x, y, x):
        w.write(a)
        same_values(RasterReader(p).read(), a, "raster read after write of %s %r" % (a.dtype, a.shape))
    q = path()
    v = RasterWriter(q, TRANSFORMS[2], crs, None)
    v.write(z)
    r, s = RasterReader(p), RasterReader(q)
    same_values(r.read(), x, "first raster")
    same_values(s.read(), z, "second raster")
    same_values(r.read(), x, "first raster, again")
    require(r.nodata == 0 and s.nodata is None, "nodata values are %r, %r, expected 0, None", r.nodata, s.nodata)
    require(r.transform == TRANSFORMS[1] and s.transform == TRANSFORMS[2], "transforms are mixed up")
    return 4


def histories(rec):
    arrays = [np.arange(6, dtype=np.float32).reshape(2, 3), np.full((300, 5), 300, np.int64), np.full((1, 1), 7, np.uint8), np.arange(4, dtype=np.float64).reshape(4, 1) / 3,
              np.array([[True, False]]), np.full((2, 2), -5, np.int16)]
    for x, y, z in itertools.product(range(len(arrays)), repeat=3):
        rec.check(dict(history=[x, y, z]), rewrite, arrays[x], arrays[y], arrays[z], wkt(25832))


# ---------------------------------------------------------------------------------------------- nodata
ND = {"uint8": ([0, 5, 255], [0, 1, 5, 254, 255]), "int16": ([-999, 0, -32768, 32767], [-999, -998, 0, 32767, -32768]), "uint16": ([0, 65535, 9999], [0, 9998, 9999, 65534, 65535]),
      "int32": ([-9999, 0, 2147483647, 999999], [-9999, 0, 999999, 999998, 2147483647, 2147483646]), "uint32": ([0, 4294967295], [0, 1, 4294967294, 4294967295]),
      "float32": ([-9999.0, 0.0, float("nan"), -3.4028234663852886e38, 0.1], [-9999.0, -9999.01, 0.0, 1e-9, float("nan"), -3.4028234663852886e38, 0.1]),
      "float64": ([-9999.0, 0.0, float("nan"), 1e20, 0.1], [-9999.0, -9999.00001, 0.0, 1e-9, float("nan"), 1e20, 0.1])}
SUBST = [None, -999, 0, 7, -999.0, -9999.0, 70000]


def substitute(a, nodata, subst, variant):
    from malstroem.io import RasterReader, RasterWriter
    from osgeo import gdal
    p = path()
    if variant == 0:
        RasterWriter(p, TRANSFORMS[1], "", nodata).write(a)
    else:
        opts = [[], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16", "COMPRESS=LZW"], ["COMPRESS=DEFLATE"], ["BIGTIFF=YES"]][variant - 1]
        T = {"float64": gdal.GDT_Float64, "float32": gdal.GDT_Float32, "int32": gdal.GDT_Int32, "uint32": gdal.GDT_UInt32, "int16": gdal.GDT_Int16, "uint16": gdal.GDT_UInt16, "uint8": gdal.GDT_Byte}
        ds = gdal.GetDriverByName("GTiff").Create(p, a.shape[1], a.shape[0], 1, T[a.dtype.name], opts)
        b = ds.GetRasterBand(1)
        if nodata is not None:
            b.SetNoDataValue(nodata)
        b.WriteArray(a)
        b = ds = None
    r = RasterReader(p, subst) if subst is not None else RasterReader(p)
    n = 0
    for again in (0, 1):
        got = r.read()
        require(got.shape == a.shape, "shape is %r", got.shape)
        if subst is None or nodata is None:
            require(got.dtype == a.dtype, "type is %r, expected %r", got.dtype.name, a.dtype.name)
            same(got, a, "raster")
        else:
            hit = (a != a) if nodata != nodata else a == np.array(nodata).astype(a.dtype)
            for k in np.ndindex(a.shape):
                want = subst if hit[k] else a[k].item()
                g = got[k].item()
                if not (g == want or (g != g and want != want)):
                    raise Problem("cell %r holding %r is read as %r, expected %r (nodata %r, substitute %r, read number %d)" % (k, a[k].item(), g, want, nodata, subst, again + 1))
        got[...] = 1    # arrays read belong to the caller
        n += 1
    same(RasterReader(p).read(), a, "file")
    return n, None


def nodata(rec, dt, sh, n, step=1):
    nds, vals = ND[dt]
    k = 0
    for a in spaces.grids((2, 2), vals, np.dtype(dt)):
        for nd in nds + [None]:
            for s in SUBST:
                k += 1
                if k % n != sh or (k // n) % step:
                    continue
                rec.check(lambda: dict(array=a, nodata=nd, substitute=s, variant=k // n % 5), substitute, a, nd, s, k // n % 5)


def nodata_big(rec):
    for dt in ND:
        for nd in ND[dt][0]:
            vals = np.array(ND[dt][1]).astype(dt)
            a = vals[np.arange(300 * 270) * 7919 % len(vals)].reshape(300, 270)
            for s in (-999, None):
                rec.check(dict(type=dt, shape=a.shape, nodata=nd, substitute=s), substitute, a, nd, s, 1)


def on_disk(rec):
    with Scratch() as s:
        for dt in DIRECT:
            a = np.arange(600 * 300).reshape(600, 300).astype(dt)
            rec.check(dict(type=dt, shape=a.shape, on="disk"), roundtrip, a, TRANSFORMS[1], wkt(25832), 0, True, s(dt + ".tif"))


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for dt in DIRECT:
        J.add("values-" + dt, direct, dt)
        J.add("nodata-" + dt, nodata, dt, SH, NS, 1 if T else 8 if dt.startswith("float") else 4, n=4)
    for dt in CAST:
        J.add("cast-" + dt, casts, dt, SH, NS, n=2)
    J.add("halves", halves)
    J.add("sizes", sizes, SH, NS, n=8)
    J.add("memory", memory)
    J.add("georeference", georeference)
    J.add("histories", histories)
    J.add("nodata-big", nodata_big)
    J.add("on-disk", on_disk)
    return J
