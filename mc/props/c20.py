"""C20: complete gives a consistent, water-conserving result for every DEM."""
import itertools
import math
import os
import shutil
import subprocess
import sys

import numpy as np

from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, cli, run_ok, write_tif, read_tif, read_layer, layer_names, TRANSFORMS, cell_area, require_close, use
from .c19 import WKT, snapshot

BOUNDS = ("all 4x4 DEMs with three interior levels x wall and outlet patterns, all 3x5 with two levels, the options taken in turn; a catalogue of DEMs x all combinations of -accum, -vector, "
          "filter, rain, resolution and native speedups; all kinds of output directories which are not empty")
ASSUMPTIONS = ["elevations not below -999 where there are cells without data", "GDAL reads back what was written (independent reader)"]

FILTERS = [(None, lambda a, d, v: True), ("area > 5.5", lambda a, d, v: a > 5.5), ("maxdepth >= 2 or volume > 3.75", lambda a, d, v: d >= 2 or v > 3.75),
           ("area > 100000", lambda a, d, v: False), ("maxdepth < 2 and (area < 3 or volume != 2)", lambda a, d, v: d < 2 and (a < 3 or v != 2))]
RASTERS = ["filled.tif", "flowdir.tif", "bs_depths.tif", "watersheds.tif", "bluespots.tif", "finaldepths.tif", "finalbluespots.tif"]
LAYERS = ["pourpoints", "nodes", "streams", "initvolumes", "finalstate", "hypsometry", "finallevels", "finalbluespots"]


def by(fs, key):
    out = {}
    for f in fs:
        k = f["properties"][key]
        require(k not in out, "%s %r occurs twice", key, k)
        out[k] = f["properties"]
    return out


def shoelace(ring):
    return 0.5 * sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(ring, ring[1:]))


def polygon_area(g):
    polys = [g["coordinates"]] if g["type"] == "Polygon" else g["coordinates"]
    # relative to the first vertex: coordinates are large
    a = 0.0
    for p in polys:
        x0, y0 = p[0][0][:2]
        rings = [[(x - x0, y - y0) for x, y in (q[:2] for q in r)] for r in p]
        a += abs(shoelace(rings[0])) - sum(abs(shoelace(r)) for r in rings[1:])
    return a


def polygons_match(fs, lab, area, what):
    got = {}
    for f in fs:
        k = f["properties"]["bspot_id"]
        got[k] = got.get(k, 0.0) + polygon_area(f["geometry"])
    ids, counts = np.unique(lab[lab != 0], return_counts=True)
    want = dict(zip(ids.tolist(), (counts * area).tolist()))
    require(set(got) == set(want), "%s polygons have IDs %r, the raster has %r", what, sorted(got), sorted(want))
    for k in want:
        require(abs(got[k] - want[k]) <= 1e-6 * want[k], "%s polygons of ID %r cover %r, the raster %r", what, k, got[k], want[k])


def inspect(out, dem, nodata, tr, crs, accum, vector, flt, mm, zres):
    """All conditions on an output directory of complete"""
    z = dem.astype(np.float64)
    if nodata is not None:
        z = np.where(z == nodata, -999.0, z)
    z = z.astype(np.float32)
    area = cell_area(tr)
    N = z.size
    files = set(os.listdir(out))
    want = set(RASTERS) | {"malstroem.gpkg"} | ({"accum.tif"} if accum else set())
    require(files == want, "output directory contains %s, expected %s", sorted(files), sorted(want))
    R = {}
    for f in sorted(want - {"malstroem.gpkg"}):
        a, t, c, nd = read_tif(os.path.join(out, f))
        require(a.shape == z.shape, "%s has shape %r", f, a.shape)
        require(np.allclose(t, tr, rtol=1e-12, atol=1e-9), "%s has geotransform %r, expected %r", f, t, tr)
        require(bool(c) == bool(crs), "%s has coordinate system %r", f, c)
        R[f[:-4]] = a
    gp = os.path.join(out, "malstroem.gpkg")
    names = set(layer_names(gp))
    wl = set(LAYERS) | ({"bluespots", "watersheds"} if vector else set())
    require(names == wl, "layers %s, expected %s", sorted(names), sorted(wl))
    L = {n: read_layer(gp, n) for n in sorted(wl)}
    # rasters
    filled = R["filled"].astype(np.float64)
    same(R["filled"], ref.fill(z), "filled.tif")
    depths = R["bs_depths"].astype(np.float64)
    same(R["bs_depths"].astype(np.float32), R["filled"].astype(np.float32) - z, "bs_depths.tif")
    require((depths >= 0).all(), "negative depth")
    bs, ws = R["bluespots"].astype(np.int64), R["watersheds"].astype(np.int64)
    comps = ref.components((depths > 0).tolist())
    keep = set()
    for c in comps:
        d = [float(R["bs_depths"][q]) for q in c]
        tot = float(np.float64(sum(d)))
        if flt(len(c) * area, max(d), tot * area):
            keep.add(c)
    cells = ref.cells_of(bs.tolist())
    n = len(keep)
    require(set(cells) == set(range(1, n + 1)), "bluespot IDs are %r, expected 1..%d", sorted(cells)[:20], n)
    require(set(frozenset(c) for c in cells.values()) == keep, "bluespots.tif does not hold the connected wet areas which pass the filter")
    require(set(np.unique(ws).tolist()) == set(range(n + 1)), "watershed IDs are %r, expected 0..%d", np.unique(ws)[:20].tolist(), n)
    require((ws[bs != 0] == bs[bs != 0]).all(), "a bluespot cell is in the watershed of another one")
    fd = R["flowdir"].tolist()
    require(ref.is_acyclic(fd), "flow directions with a cycle")
    if accum:
        rows, cols = z.shape
        out_cells = [(r, c) for r in range(rows) for c in range(cols) if ref.downstream(fd, r, c) is None]
        require(sum(float(R["accum"][q]) for q in out_cells) == N, "the flow leaving the raster is not the number of its cells")
    # layers
    pp = by(L["pourpoints"], "bspot_id")
    require(set(pp) == set(range(n + 1)), "pour points of %r, expected 0..%d", sorted(pp)[:20], n)
    require_close(sum(p["wshed_area"] for p in pp.values()), N * area, "sum of watershed areas", 1e-9)
    for i in range(n + 1):
        require_close(pp[i]["wshed_area"], int((ws == i).sum()) * area, "watershed area of %d" % i)
        if i:
            require_close(pp[i]["bspot_area"], int((bs == i).sum()) * area, "area of bluespot %d" % i)
            require_close(pp[i]["bspot_vol"], float(depths[bs == i].sum()) * area, "volume of bluespot %d" % i, 1e-6)
            require_close(pp[i]["bspot_dmax"], float(depths[bs == i].max()), "depth of bluespot %d" % i, 1e-6)
            require(bs[pp[i]["cell_row"], pp[i]["cell_col"]] == i, "pour point %d is not in its bluespot", i)
    require(pp[0]["bspot_vol"] == 0 and pp[0]["bspot_dmax"] == 0, "the background has volume %r and depth %r", pp[0]["bspot_vol"], pp[0]["bspot_dmax"])
    nodes = by(L["nodes"], "nodeid")
    streams = by(L["streams"], "nodeid")
    initv = by(L["initvolumes"], "nodeid")
    fin = by(L["finalstate"], "nodeid")
    levels = by(L["finallevels"], "bspot_id")
    hyps = by(L["hypsometry"], "bspot_id")
    require(set(nodes) == set(streams) == set(initv) == set(fin), "nodes, streams, initvolumes and finalstate are about different nodes")
    ppn = {p["bspot_id"]: i for i, p in nodes.items() if p["nodetype"] == "pourpoint"}
    require(set(ppn) == set(pp), "nodes of pour points %r, expected %r", sorted(ppn), sorted(pp))
    require(len(ppn) + sum(p["nodetype"] == "junction" for p in nodes.values()) == len(nodes), "unknown node types")
    require(set(levels) == set(pp) and set(hyps) == set(pp), "levels of %r, hypsometry of %r, expected %r", sorted(levels), sorted(hyps), sorted(pp))
    rain = mm * 1e-3 * N * area
    require_close(sum(p["inputv"] for p in initv.values()), rain, "total initial volume")
    inflow = {i: p["inputv"] for i, p in fin.items()}
    for i, p in nodes.items():
        d = p["dstrnodeid"]
        require(d is None or d in nodes, "node %r flows to unknown node %r", i, d)
        require(streams[i]["dstrnodeid"] == d and fin[i]["dstrnodeid"] == d and initv[i]["dstrnodeid"] == d, "downstream node of %r differs between layers", i)
        require_close(initv[i]["inputv"], mm * 1e-3 * (p["wshed_area"] or 0.0), "initial volume of node %r" % i)
        if d is not None:
            inflow[d] += fin[i]["spillv"]
    for i, p in fin.items():
        cap = p["bspot_vol"] or 0.0
        require_close(p["v"] + p["spillv"], inflow[i], "water stored and spilled by node %r" % i, 1e-9)
        require(-1e-12 <= p["v"] <= cap * (1 + 1e-12) + 1e-12, "node %r stores %r of capacity %r", i, p["v"], cap)
        require(p["spillv"] >= 0 and (p["spillv"] <= 1e-9 * max(1.0, inflow[i]) or p["v"] >= cap * (1 - 1e-9)), "node %r spills %r while holding %r of %r", i, p["spillv"], p["v"], cap)
    stored, off = sum(p["v"] for p in fin.values()), sum(p["spillv"] for p in fin.values() if p["dstrnodeid"] is None)
    require(abs(stored + off - rain) <= 1e-9 * max(1.0, rain), "stored %r + spilled %r is not the rain %r", stored, off, rain)
    for i in range(1, n + 1):
        h = hyps[i]
        cnt = sum(int(float(x)) for x in str(h["hist_counts"]).split("|"))
        require(cnt == int((bs == i).sum()), "histogram of bluespot %d counts %d cells", i, cnt)
        require_close(h["zmin"], float(z[bs == i].min()), "zmin of bluespot %d" % i, 1e-6)
        require_close(h["zmax"], float(z[bs == i].max()), "zmax of bluespot %d" % i, 1e-6)
    # final extent
    fb, fdep = R["finalbluespots"].astype(np.int64), R["finaldepths"].astype(np.float64)
    require((fb[fb != 0] == bs[fb != 0]).all(), "final bluespots outside their bluespot")
    require((fdep >= 0).all() and (fdep[bs == 0] == 0).all(), "final depth outside of bluespots")
    for i in range(1, n + 1):
        m = bs == i
        lev, v, cap = float(levels[i]["approx_z"]), fin[ppn[i]]["v"], fin[ppn[i]]["bspot_vol"]
        tol = 1e-5 * max(1.0, float(np.abs(z).max()))
        require((np.abs(fdep[m] - np.maximum(lev - z[m].astype(np.float64), 0)) <= tol).all(), "final depths of bluespot %d do not fit its level %r", i, lev)
        if v >= cap:
            require((np.abs(fdep[m] - depths[m]) <= tol).all(), "bluespot %d is full, but its final depths differ from its depths", i)
        if v == 0:
            require(fdep[m].max() <= tol, "bluespot %d is empty but has depth %r", i, float(fdep[m].max()))
        held = float(fdep[m].sum()) * area
        require(held <= cap * (1 + 1e-5) + tol * m.sum() * area, "bluespot %d shows %r of its volume %r", i, held, cap)
        require(abs(held - v) <= m.sum() * area * (2 * zres * (1 + 1e-9) + 1e-4 * float(depths[m].max()) + tol), "bluespot %d shows volume %r, it holds %r", i, held, v)
    polygons_match(L["finalbluespots"], fb, area, "finalbluespots")
    if vector:
        polygons_match(L["bluespots"], bs, area, "bluespots")
        polygons_match(L["watersheds"], ws, area, "watersheds")
    return (n, len(nodes), int((fb != 0).sum()))


def command(dem, outdir, accum, vector, f, mm, zres):
    a = ["complete", "-dem", dem, "-outdir", outdir, "-mm", repr(mm), "-zresolution", repr(zres)]
    if accum:
        a.append("-accum")
    if vector:
        a.append("-vector")
    if f:
        a += ["-filter", f]
    return a


def evaluate(root, dem, nodata, tr, accum, vector, fi, mm, zres, native=True, process=False):
    d = os.path.join(root, "case")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    out = os.path.join(d, "out")
    os.mkdir(out)
    crs = WKT if (accum + vector) % 2 == 0 else ""
    p = write_tif(os.path.join(d, "dem.tif"), dem, tr, crs, nodata)
    before = open(p, "rb").read()
    args = command(p, out, accum, vector, FILTERS[fi][0], mm, zres)
    use(native)
    try:
        if process:
            r = real(args, d)
            require(r.returncode == 0, "exit code %r: %s", r.returncode, r.stderr[-300:])
        else:
            run_ok(*args)
    finally:
        use(True)
    require(sorted(os.listdir(d)) == ["dem.tif", "out"], "complete wrote outside its output directory: %s", sorted(os.listdir(d)))
    require(open(p, "rb").read() == before, "complete changed the DEM")
    got = inspect(out, dem, nodata, tr, crs, accum, vector, FILTERS[fi][1], mm, zres)
    if process is False and (accum + vector + fi) % 4 == 0:     # the same directory again: refused
        b = snapshot(out)
        code, exc = cli(*args)
        require(code != 0, "complete accepts a directory which holds results")
        require(snapshot(out) == b, "complete changed a directory it refused")
    return 1, got


def real(args, cwd):
    env = dict(os.environ)
    env["PYTHONPATH"] = os.environ.get("MC_REPO", "/repo")
    return subprocess.run([sys.executable, "-c", "import sys; from malstroem.scripts.cli import cli; sys.argv[0] = 'malstroem'; cli()"] + [str(a) for a in args],
                          cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)


OPTIONS = list(itertools.product((False, True), (False, True), range(len(FILTERS)), (20.0, 0.0, 700.5, 150000.0), (0.1, 1.0)))


def option(k):
    # 37 is coprime to the number of options: all are met in turn
    return OPTIONS[(k * 37) % len(OPTIONS)]


def small(rec, shape, levels, wall, outlets, sh, n, step=1):
    root = rec.fresh()
    k = -1
    for z in spaces.basins(shape, levels, wall, outlets, np.float32):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        a, v, f, mm, zr = option(k)
        tr = TRANSFORMS[:6][k % 6]
        rec.check(lambda: dict(dem=z, accum=a, vector=v, filter=FILTERS[f][0], mm=mm, zresolution=zr), evaluate, root, z.copy(), None, tr, a, v, f, mm, zr, k % 5 != 3)


def catalogue():
    from .c19 import dems
    for x in dems():
        yield x
    yield "deep", np.pad(np.array([[-50, 3], [4, 1]]), 1, constant_values=60).astype(np.float32), None
    yield "trench", (np.pad(np.array([[-50, 3, 9], [4, 1, -70]]), 1, constant_values=60) * 20 - 9000).astype(np.float32), None
    yield "slope", (np.arange(20).reshape(4, 5) * 0.5).astype(np.float64), None
    yield "allnodata", np.full((3, 4), -9999.0, np.float32), -9999
    yield "bytes", (spaces.texture(6, 7, 3, 250)).astype(np.uint8), 0
    yield "row2", np.array([[3, 1, 2, 5], [4, 2, 1, 1]], np.float32), None
    yield "nan", np.where(np.arange(25).reshape(5, 5) % 11 == 7, np.nan, spaces.texture(5, 5, 4, 9)).astype(np.float32), float("nan")


def every(rec, ix, sh, n, step):
    name, dem, nodata = list(catalogue())[ix]
    root = rec.fresh()
    if nodata is not None and nodata != nodata:
        dem2 = dem
        nod = float("nan")
    for k, (a, v, f, mm, zr) in enumerate(OPTIONS):
        if (k + ix) % step or ((k + ix) // step) % n != sh:
            continue
        rec.check(lambda: dict(dem=name, accum=a, vector=v, filter=FILTERS[f][0], mm=mm, zresolution=zr), nan_aware, root, dem, nodata, TRANSFORMS[(k + ix) % 6], a, v, f, mm, zr, k % 3 != 1)


def nan_aware(root, dem, nodata, tr, a, v, f, mm, zr, native):
    if nodata is not None and nodata != nodata:
        # compared as if the cells were coded -999
        d = os.path.join(root, "case")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "out"))
        p = write_tif(os.path.join(d, "dem.tif"), dem, tr, "", nodata)
        run_ok(*command(p, os.path.join(d, "out"), a, v, FILTERS[f][0], mm, zr))
        return 1, inspect(os.path.join(d, "out"), np.where(np.isnan(dem), np.float32(-999), dem), None, tr, "", a, v, FILTERS[f][1], mm, zr)
    return evaluate(root, dem, nodata, tr, a, v, f, mm, zr, native)


def large(rec, shape, seed, levels, scale):
    z = (spaces.texture(shape[0], shape[1], seed, levels) * scale - 1).astype(np.float32)
    root = rec.fresh()
    for k in (0, 1):
        a, v, f, mm, zr = OPTIONS[-1 - k * 41]
        rec.check(dict(shape=shape, seed=seed, k=k), evaluate, root, z, None, TRANSFORMS[1], a, v, f, mm, zr)


def refuse(root, kind, process):
    """complete must not touch output directories which are not empty"""
    d = os.path.join(root, "refuse")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    from .c19 import A
    p = write_tif(os.path.join(d, "dem.tif"), A.astype(np.float32), TRANSFORMS[1], WKT)
    o = os.path.join(d, "out")
    extra = []
    if kind == "missing":
        pass
    elif kind == "file":
        open(o, "w").write("some text")
    else:
        os.mkdir(o)
        if kind == "dem inside":
            p = shutil.move(p, os.path.join(o, "dem.tif"))
        elif kind == "hidden":
            open(os.path.join(o, ".keep"), "w").write("x")
        elif kind == "directory":
            os.mkdir(os.path.join(o, "sub"))
        elif kind == "link":
            os.symlink("/nonexistent/target", os.path.join(o, "link"))
        elif kind.startswith("file "):
            open(os.path.join(o, kind[5:]), "w").write("precious")
        elif kind == "empty file":
            open(os.path.join(o, "x.txt"), "w")
        elif kind == "results":
            run_ok(*command(p, o, True, True, None, 20.0, 0.1))
            os.remove(os.path.join(o, "filled.tif"))

    def tree():
        out = {}
        for b, ds, fs in os.walk(d):
            for x in ds + fs:
                q = os.path.join(b, x)
                out[os.path.relpath(q, d)] = os.readlink(q) if os.path.islink(q) else open(q, "rb").read() if os.path.isfile(q) else None
        return out
    before = tree()
    args = command(p, o, kind in ("hidden", "link"), kind != "directory", None, 20.0, 0.1) + extra
    code = real(args, d).returncode if process else cli(*args)[0]
    require(code != 0, "complete succeeds with an output directory which is not empty (%s)", kind)
    after = tree()
    require(before == after, "complete changed an output directory it should refuse (%s): %s", kind, sorted(set(before) ^ set(after)) or [k for k in before if before[k] != after[k]])
    return 1, (kind, code)


KINDS = ["missing", "file", "dem inside", "hidden", "directory", "link", "file malstroem.gpkg", "file notes.txt", "file filled.tif", "file bs_depths.tif.aux.xml", "empty file", "results"]


def refusals(rec, process):
    root = rec.fresh()
    for kind in KINDS:
        rec.check(dict(outdir=kind, process=process), refuse, root, kind, process)


def processes(rec):
    root = rec.fresh()
    for k, (name, dem, nodata) in enumerate(catalogue()):
        if name == "nan":
            continue
        a, v, f, mm, zr = OPTIONS[(k * 29 + 3) % len(OPTIONS)]
        rec.check(lambda: dict(dem=name, process=True), evaluate, root, dem, nodata, TRANSFORMS[1], a, v, f, mm, zr, True, True)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("processes", processes)
    J.add("refuse", refusals, False)
    J.add("refuse-process", refusals, True)
    S = spaces.single_outlets((4, 4), [2])
    J.add("large", large, (60, 70), 5, 1000, 0.01)
    J.add("large", large, (40, 45), 9, 6, 1.0)
    J.add("4x4", small, (4, 4), [1, 2, 5], 5, S, SH, NS, 1 if T else 2, n=8)
    P = spaces.single_outlets((3, 5), [2])
    J.add("3x5", small, (3, 5), [1, 2, 4, 5], 5, P, SH, NS, 1 if T else 3, n=8)
    for ix in range(len(list(catalogue()))):
        J.add("options-%d" % ix, every, ix, SH, NS, 1 if T else 3, n=2)
    if T:
        J.add("5x5", small, (5, 5), [1, 4], 5, spaces.single_outlets((5, 5), [2]), SH, NS, 1, n=16)
        J.add("large", large, (150, 160), 5, 1000, 0.01)
    return J
