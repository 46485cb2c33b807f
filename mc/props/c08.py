"""C08: each bluespot has one pour point: its outlet, rightly placed and described."""
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import (Jobs, SH, NS, use, MemRaster, MemVector, pipeline, require_close, TRANSFORMS, cell_centre, cell_area,
                    Scratch, write_tif, read_layer, run_ok)

BOUNDS = ("all 5x5 basins over two interior levels and 4x5 basins over three levels, walls with one or two outlets, textures; filters; "
          "minimum-surface and accumulated-flow mode; eight geotransforms (rows going north, columns going west, cells square within one per cent, sheared), cells of two millimetres; 67600 bluespots and 66001 rows or columns; tool and pourpts command")
ASSUMPTIONS = ["areas in rotated rasters are not judged", "which of several equally good pour points is taken is free"]
FILTERS = [None, "area > 1", "maxdepth > 1", "volume >= 2"]


def preds(fx, tr):
    a = cell_area(tr)
    return {None: lambda n, d, v: True, "area > 1": lambda n, d, v: n * a > 1, "maxdepth > 1": lambda n, d, v: d > 1,
            "volume >= 2": lambda n, d, v: v * a >= 2}[fx]


def check_pp(feats, lab, p, tr, accum):
    """feats: pour point features; lab: bluespot IDs; p: pipeline rasters"""
    depths, fd, nf = p["depths"], p["flowdir"], p["noflats"]
    L = lab.tolist()
    n = int(lab.max())
    ids = [f["properties"]["bspot_id"] for f in feats]
    require(ids == list(range(n + 1)), "pour point IDs are %r, expected 0..%d", ids[:30], n)
    ws = ref.watersheds(fd.tolist(), L, 0)
    area = cell_area(tr)
    cells = [[] for _ in range(n + 1)]
    wcount = [0] * (n + 1)
    for r, row in enumerate(L):
        for c, v in enumerate(row):
            cells[v].append((r, c))
            wcount[ws[r][c]] += 1
    dl, nl = depths.tolist(), nf.tolist()
    fl = fd.tolist()
    a = p["accum"].tolist() if accum else None
    for f in feats:
        q = f["properties"]
        i = q["bspot_id"]
        pp = (q["cell_row"], q["cell_col"])
        where = "pour point %d at cell %r" % (i, pp)
        require(pp in cells[i], "%s: not on a cell of the bluespot (cells %r)", where, cells[i][:20])
        if accum:
            best = max(a[r][c] for r, c in cells[i])
            require(a[pp[0]][pp[1]] == best, "%s: accumulated flow %r is not the largest (%r)", where, a[pp[0]][pp[1]], best)
        else:
            best = min(nl[r][c] for r, c in cells[i])
            require(nl[pp[0]][pp[1]] == best, "%s: no-flats level %r is not the lowest (%r)", where, nl[pp[0]][pp[1]], best)
        if i:
            nxt = ref.downstream(fl, *pp)
            require(nxt not in cells[i], "%s: flow does not leave the bluespot", where)
        d = [dl[r][c] for r, c in cells[i]]
        if i == 0:      # the background has no depth, whatever bluespots the filter drops there
            d = [0.0] * len(d)
        vol, A = sum(d) * area, len(d) * area
        require_close(q["bspot_dmax"], max(d), where + ": bspot_dmax")
        require_close(q["bspot_area"], A, where + ": bspot_area")
        require_close(q["bspot_vol"], vol, where + ": bspot_vol")
        require_close(q["wshed_area"], wcount[i] * area, where + ": wshed_area")
        require_close(q["bspot_fumm"], 1000 * vol / (wcount[i] * area), where + ": bspot_fumm")
        g = f["geometry"]
        require(g["type"] == "Point", "%s: geometry %r", where, g["type"])
        xy = cell_centre(tr, *pp)
        for k in (0, 1):
            require(abs(g["coordinates"][k] - xy[k]) <= 1e-9 * max(1, abs(xy[k])), "%s: coordinates %r, expected %r", where, g["coordinates"], xy)


def kept_labels(p, fx, tr):
    comps = ref.components(p["depths"].tolist())
    pred = preds(fx, tr)
    out = []
    for comp in comps:
        v = [float(p["depths"][q]) for q in comp]
        if pred(len(v), max(v), sum(v)):
            out.append(comp)
    return out


def tool(dem, p, tr, fx, accum):
    from malstroem.bluespots import BluespotTool
    from malstroem.scripts._utils import parse_filter
    lab, ws, pp = MemRaster(), MemRaster(), MemVector()
    BluespotTool(MemRaster(p["depths"], tr), MemRaster(p["flowdir"], tr), parse_filter(fx) if fx else None, lab, pp, ws,
                 input_accum=MemRaster(p["accum"], tr) if accum else None, input_dem=MemRaster(dem, tr)).process()
    from .c06 import check_labels
    comps = kept_labels(p, fx, tr)
    check_labels(lab.out, comps, dem.shape)
    same(ws.out, ref.watersheds(p["flowdir"].tolist(), lab.out.tolist(), 0), "watersheds")
    check_pp(pp.out, lab.out, p, tr, accum)
    return 1, len(pp.out)


def basins(rec, shape, levels, outl, sh, n, native, step=1, filters=FILTERS):
    use(native)
    for k, g in enumerate(spaces.basins(shape, levels, 3, outl, np.float32, sh, n)):
        if k % step:
            continue
        p = None
        for accum in (False, True):
            i = (k // step) * 2 + accum
            tr, fx = TRANSFORMS[i % 8], filters[(i // 8) % len(filters)]
            if p is None:
                p = pipeline(g, True)
            rec.check(lambda: dict(dem=g, transform=tr, filter=fx, accum=accum, native=native), tool, g, p, tr, fx, accum)


TINY = (12.25, 0.002, 0.0, -7.5, 0.0, -0.002)


def textures(rec, R, C, k, lv, native):
    use(native)
    g = spaces.texture(R, C, k, lv).astype(np.float32)
    p = pipeline(g, True)
    for tr in TRANSFORMS + [TINY]:
        for fx in FILTERS:
            for accum in (False, True):
                rec.check(dict(texture=(R, C, k, lv), transform=tr, filter=fx, accum=accum, native=native), tool, g, p, tr, fx, accum)


def many(rec):
    """More bluespots, rows and columns than 16 bits can count"""
    use(True)
    pits = np.full((521, 521), 3, np.float32)
    pits[1::2, 1::2] = 2 - np.arange(260 * 260).reshape(260, 260) % 7 * 0.25
    strip = np.full((4, 66001), 3, np.float32)
    strip[1:3, 1:-1] = spaces.texture(2, 65999, 3, 9) * 0.25
    for what, g in (("pits", pits), ("columns", strip), ("rows", np.ascontiguousarray(strip.T))):
        p = pipeline(g, True)
        for accum in (False, True):
            rec.check(dict(dem=what, shape=g.shape, accum=accum), tool, g, p, TRANSFORMS[1], None if what != "pits" else "area > 1", accum)


def command(dem, tr, accum, fmt):
    p = pipeline(dem, True)
    comps = ref.components(p["depths"].tolist())
    lab = np.zeros(dem.shape, np.int32)
    for i, comp in enumerate(comps):
        for q in comp:
            lab[q] = i + 1
    ws = np.array(ref.watersheds(p["flowdir"].tolist(), lab.tolist(), 0), np.int32)
    with Scratch() as s:
        write_tif(s("dem.tif"), dem, tr)
        write_tif(s("depths.tif"), p["depths"], tr, nodata=-999)
        write_tif(s("bs.tif"), lab, tr, nodata=0)
        write_tif(s("ws.tif"), ws, tr, nodata=0)
        write_tif(s("accum.tif"), p["accum"], tr)
        out = s({"gpkg": "pp.gpkg", "geojson": "pp.geojson", "ESRI shapefile": "pp"}[fmt])
        args = ["pourpts", "-bluespots", s("bs.tif"), "-depths", s("depths.tif"), "-watersheds", s("ws.tif"), "-out", out, "-format", fmt, "-layername", "pourpoints"]
        args += ["-accum", s("accum.tif")] if accum else ["-dem", s("dem.tif")]
        run_ok(*args)
        check_pp(read_layer(out, "pourpoints"), lab, p, tr, accum)
    return 1


def commands(rec, sh, n, native):
    use(native)
    k = 0
    for g in spaces.basins((4, 5), [0, 1, 2], 3, spaces.single_outlets((4, 5), [1]), np.float32):
        k += 1
        if k % (97 if native else 331) or (k // 97) % n != sh:
            continue
        for accum in (False, True):
            tr = TRANSFORMS[(k // 97) % 8]
            fmt = ("gpkg", "geojson")[(k + accum) % 2]
            rec.check(lambda: dict(command="pourpts", dem=g, transform=tr, accum=accum, format=fmt, native=native), command, g, tr, accum, fmt)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    S, P = spaces.single_outlets, spaces.pair_outlets
    J.add("basin5x5", basins, (5, 5), [0, 2], S((5, 5), [0, 1]), SH, NS, True, n=8)
    J.add("basin4x5", basins, (4, 5), [0, 1, 2], S((4, 5), [0, 1]), SH, NS, True, n=8)
    J.add("basin4x6-two", basins, (4, 6), [0, 2], P((4, 6), [1]), SH, NS, True, n=8)
    J.add("basin5x5-python", basins, (5, 5), [0, 2], S((5, 5), [1]), SH, NS, False, 3, n=8)
    for nat in (True, False):
        for R, C, k, lv in ((12, 9, 1, 3), (25, 31, 2, 6), (9, 40, 3, 50)):
            J.add("texture%dx%d-%s" % (R, C, nat), textures, R, C, k, lv, nat)
        J.add("pourpts-%s" % nat, commands, SH, NS, nat, n=4)
    J.add("many", many)
    J.add("texture90x70", textures, 90, 70, 4, 9, True)
    if T:
        J.add("basin5x5-pairs", basins, (5, 5), [0, 2], P((5, 5), [0, 1]), SH, NS, True, n=64)
        J.add("basin5x5-3", basins, (5, 5), [0, 1, 2], S((5, 5), [1]), SH, NS, True, 3, n=64)
        J.add("basin6x5", basins, (6, 5), [0, 2], S((6, 5), [0]), SH, NS, True, n=64)
        J.add("texture300", textures, 300, 200, 5, 9, True)
    return J
