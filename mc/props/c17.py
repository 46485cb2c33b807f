"""C17: polygons cover exactly the labelled cells, one per connected region."""
import itertools
import os
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, Scratch, write_tif, read_layer, run_ok, cli, TRANSFORMS, layer_names
from .c16 import raw, wkt, same_crs, write, kinds

BOUNDS = ("all rasters of up to 8 (14) cells which are one or two cells wide or high, all 3x3 rasters of IDs 0..2 and all 2x4 rasters of IDs 0..3 (3x4, 4x4 in the thorough tier) through both polygonising functions; georeferences, number types, IDs up to 2^31-1, nodata "
          "values, formats, coordinate systems; up to 300x300 cells; polygon layers written between other layers and into layers which exist; polys command")
ASSUMPTIONS = ["background cells hold the raster's nodata value"]


def regions(lab, background):
    """{frozenset of cells: id}"""
    out = {}
    for v in np.unique(lab):
        if v == background:
            continue
        for cells in ref.components((lab == v).tolist()):
            out[cells] = int(v)
    return out


def to_grid(tr, x, y):
    """World -> column, row (axis aligned transforms)"""
    return (x - tr[0]) / tr[1], (y - tr[3]) / tr[5]


def covered(geom, tr, shape, tol):
    """Cells covered by a polygon whose vertices must be cell corners"""
    require(geom is not None and geom["type"] == "Polygon", "geometry is %r, expected a polygon", None if geom is None else geom["type"])
    rings = []
    for ring in geom["coordinates"]:
        pts = []
        for p in ring:
            c, r = to_grid(tr, p[0], p[1])
            require(abs(c - round(c)) < tol and abs(r - round(r)) < tol, "vertex %r is not a cell corner", p)
            pts.append((int(round(c)), int(round(r))))
        require(pts[0] == pts[-1] and len(pts) >= 5, "ring %r is not closed", pts)
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            require(x0 == x1 or y0 == y1, "edge from %r to %r does not follow cell edges", (x0, y0), (x1, y1))
        rings.append(pts)
    # even-odd over vertical edges, per row
    xs, ys = [p[0] for ring in rings for p in ring], [p[1] for ring in rings for p in ring]
    dx, dy = min(xs), min(ys)
    mask = np.zeros((max(ys) - dy + 1, max(xs) - dx + 1), np.int64)
    for ring in rings:
        for (x0, y0), (x1, y1) in zip(ring, ring[1:]):
            if x0 == x1:
                lo, hi = sorted((y0, y1))
                require(0 <= lo and hi <= shape[0] and 0 <= x0 <= shape[1], "polygon reaches outside the raster")
                mask[lo - dy:hi - dy, x0 - dx] += 1
    r, c = np.nonzero(np.cumsum(mask, axis=1) % 2)
    return frozenset(zip((r + dy).tolist(), (c + dx).tolist()))


def compare(feats, lab, background, tr, attribute="bspot_id", tol=1e-6):
    want = regions(lab, background)
    require(len(feats) == len(want), "%d polygons, expected %d", len(feats), len(want))
    seen = set()
    for f in feats:
        cells = covered(f["geometry"], tr, lab.shape, tol)
        i = f["properties"].get(attribute)
        require(cells in want, "polygon with ID %r covers the cells %r, which are not one region", i, sorted(cells)[:12])
        require(cells not in seen, "two polygons cover the same region")
        seen.add(cells)
        require(i == want[cells], "polygon has ID %r, its cells have %r", i, want[cells])
    return tuple(sorted(len(c) for c in seen))


NAME = [0]


def vsi(ext):
    NAME[0] += 1
    return "/vsimem/mc17-%d.%s" % (NAME[0], ext)


def both(lab, tr, background=0, nodata=0, crs=""):
    from osgeo import gdal
    from malstroem.vector import vectorize_labels_file, vectorize_labels_file_io
    p, q = vsi("tif"), vsi("geojson")
    write_tif(p, lab, tr, crs, nodata)
    name = ("bspot_id", "wshed")[int(lab.sum()) % 2]
    kw = {} if name == "bspot_id" else dict(id_attribute=name)
    a = list(vectorize_labels_file(p, **kw))
    o = compare(a, lab, background, tr, name)
    vectorize_labels_file_io(p, q, "polys", "GeoJSON", quiet=True, **kw)
    b = read_layer(q)
    o2 = compare(b, lab, background, tr, name)
    same(gdal.Open(p).ReadAsArray(), lab, "ID raster file")
    gdal.Unlink(p)
    gdal.Unlink(q)
    require(o == o2, "the two functions differ")
    return 2, (o, lab.tobytes()) if lab.size < 10 else o


TYPES = (np.int32, np.uint8, np.uint16, np.uint32, np.int16)


def small(rec, shape, ids, sh, n, step=1):
    k = 0
    for lab in spaces.grids(shape, ids, np.int32):
        k += 1
        if k % n != sh or (k // n) % step:
            continue
        j = k // n
        L, tr = lab.astype(TYPES[j % 5]), TRANSFORMS[j % 6]
        rec.check(lambda: dict(ids=L, transform=tr), both, L, tr)


def narrow(rec, sh, n, cells):
    """All rasters which are one or two cells wide or high"""
    k = 0
    for a in (1, 2):
        for b in range(1, cells + 1):
            for shape in {(a, b), (b, a)}:
                if shape[0] * shape[1] > cells or shape in ((2, 4),):
                    continue
                for lab in spaces.grids(shape, [0, 1] if a * b > 6 else [0, 1, 2], np.int32):
                    k += 1
                    if k % n == sh:
                        L, tr = lab.astype(TYPES[k // n % 5]), TRANSFORMS[k // n % 6]
                        rec.check(lambda: dict(ids=L, transform=tr), both, L, tr)


def values(rec):
    shapes = [np.array([[0, 1, 0], [2, 1, 2]]), np.array([[1, 2, 1], [2, 1, 2]]), np.array([[1, 1, 1], [1, 2, 1], [1, 1, 0]]), np.array([[2, 0, 1]] * 3)]
    for base, (a, b), dt in itertools.product(shapes, ((16777216, 16777217), (2147483646, 2147483647), (255, 256), (65535, 65536), (1, 300), (254, 255)), TYPES):
        if b > np.iinfo(dt).max:
            continue
        lab = np.array([0, a, b])[base].astype(dt)
        for tr in TRANSFORMS[:2]:
            rec.check(dict(ids=lab, transform=tr), both, lab, tr)
    for nd, dt in ((7, np.uint8), (-1, np.int32), (255, np.uint8), (-9999, np.int32)):
        for base in shapes:
            lab = np.array([nd, 1, 0])[base].astype(dt)   # ID 0 is an ordinary ID here
            rec.check(dict(ids=lab, nodata=nd), both, lab, TRANSFORMS[1], nd, nd)


def big(rec):
    for R, C, m in ((300, 300, 2), (100, 200, 40), (257, 64, 5), (1, 300, 3), (300, 1, 3)):
        lab = (spaces.texture(R, C, 3, m + 1)).astype(np.int32)
        rec.check(dict(shape=(R, C), ids=m), both, lab, TRANSFORMS[1])
        blobs = np.kron((spaces.texture((R + 7) // 8, (C + 7) // 8, 5, m + 1)).astype(np.int32), np.ones((8, 8), np.int32))[:R, :C].copy()
        rec.check(dict(shape=(R, C), ids=m, blobs=8), both, blobs, TRANSFORMS[2])
    for n in (9, 21, 41):
        lab = (spaces.spiral(n)[0] < 5).astype(np.uint8)
        rec.check(dict(spiral=n), both, lab, TRANSFORMS[3])
        rings = np.add.outer(np.abs(np.arange(n) - n // 2), np.zeros(n, int))
        rings = np.maximum(rings, rings.T) % 3
        rec.check(dict(rings=n), both, rings.astype(np.int32), TRANSFORMS[1])


def layers(lab, tr, fmt, epsg, order, cmd, again=False):
    """Polygon layers among other layers of one datasource"""
    from malstroem.vector import vectorize_labels_file_io
    K = kinds()
    with Scratch() as s:
        crs = wkt(epsg) if epsg else ""
        write_tif(s("a.tif"), lab, tr, crs, 0)
        write_tif(s("b.tif"), lab[::-1].copy(), tr, crs, 0)
        p = s("o.gpkg") if fmt == "gpkg" else s("dir")
        if fmt != "gpkg":
            os.mkdir(p)
        snap = {}
        for step in order:
            if step in ("a", "b"):
                name = "poly" + step
                if cmd:
                    run_ok("polys", "-raster", s(step + ".tif"), "-out", p, "-format", fmt, "-layername", name)
                else:
                    vectorize_labels_file_io(s(step + ".tif"), p, name, fmt, quiet=step == "a")
            else:
                name, geom, e, fs = K[step]
                write(fmt, p, name, fs, geom, wkt(e) if e else None)
            for nm in snap:
                require(raw(p, nm) == snap[nm], "layer %s was changed by writing layer %s", nm, name)
            snap[name] = raw(p, name)
        if again:       # polygonised into a layer which exists: may fail, other layers stay
            try:
                if cmd:
                    cli("polys", "-raster", s("b.tif"), "-out", p, "-format", fmt, "-layername", "polya")
                else:
                    vectorize_labels_file_io(s("b.tif"), p, "polya", fmt, quiet=True)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception:
                pass
            require(layer_names(p) == sorted(snap), "layers are %r after polygonising into polya again, expected %r", layer_names(p), sorted(snap))
            for nm in snap:
                require(nm == "polya" or raw(p, nm) == snap[nm], "layer %s was changed by writing layer polya again", nm)
            return len(order) + 1
        for step in "ab":
            if step in order:
                compare(read_layer(p, "poly" + step), lab if step == "a" else lab[::-1], 0, tr)
                c = snap["poly" + step][2]
                require(same_crs(c, crs) or (not crs and c and "ndefined" in c), "layer poly%s: coordinate system is %r, expected %r", step, c, crs)
        require(layer_names(p) == sorted(snap), "layers are %r, expected %r", layer_names(p), sorted(snap))
    return len(order)


def sequences(rec, sh, n):
    k = 0
    labs = [np.array([[1, 0, 2], [0, 1, 2], [3, 3, 0]], np.int32), np.zeros((2, 3), np.uint8), np.array([[1, 1, 1], [1, 0, 1], [1, 1, 1]], np.int32)]
    steps = ["a", "b", 0, 4, 2]
    for length in (1, 2, 3, 4):
        for order in itertools.permutations(steps, length):
            if "a" not in order:
                continue
            for fmt in ("gpkg", "ESRI shapefile"):
                if fmt != "gpkg" and 4 in order:
                    continue
                k += 1
                if k % n != sh or (length == 4 and (k // n) % 3):
                    continue
                lab = labs[k % 3]
                if fmt != "gpkg":
                    lab = labs[0]
                epsg = (25832, None, 3857)[k // n % 3]
                rec.check(dict(order=order, format=fmt, epsg=epsg, command=bool(k // n % 2), ids=lab), layers, lab, TRANSFORMS[k % 6], fmt, epsg, order, k // n % 2)
                if 1 < length < 4:
                    rec.check(dict(order=order, format=fmt, epsg=epsg, command=bool(k // n % 2), ids=lab, again=True), layers, lab, TRANSFORMS[k % 6], fmt, epsg, order, k // n % 2, True)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("big", big)
    J.add("3x3", small, (3, 3), [0, 1, 2], SH, NS, 1, n=8)
    J.add("2x4", small, (2, 4), [0, 1, 2, 3], SH, NS, 1 if T else 6, n=8)
    J.add("values", values)
    J.add("narrow", narrow, SH, NS, 14 if T else 8, n=4)
    J.add("layers", sequences, SH, NS, n=8)
    if T:
        J.add("4x4", small, (4, 4), [0, 1], SH, NS, 1, n=16)
        J.add("3x4", small, (3, 4), [0, 1, 2], SH, NS, 3, n=32)
    return J
