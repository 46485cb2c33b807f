"""C33: what happens in one place does not depend on terrain elsewhere."""
import os

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, use, run_ok, write_tif, read_tif, read_layer, Scratch
from .c31 import Run, BASE, near, raster, relabel, gold, terrain, FILTERS, chain

BOUNDS = ("all 4x4 and 3x5 basins with three levels and single outlets, all 3x3 DEMs with three levels (made tie free), each alone and together with other terrains beside, above, below or around it, separated by cells "
          "without data; up to 34500 bluespots (thorough: 66000) (copies of nine terrains) in one raster; at the far end of rasters with 70000 rows or columns; filters, both pour point methods, native speedups and Python; the commands on files")
ASSUMPTIONS = ["terrains which share nothing but the raster are separated by cells without data which reach the raster edge",
               "no two cells of a terrain have the same elevation and no two of its bluespots the same spill level (otherwise the flow direction is a choice)"]

VOID = -999.0
MM, ZRES = 700.0, 0.25


def window(G, W, m, r, c, shape, tied, what):
    """W: run on the whole raster, G: run on the terrain which lies at (r, c) in it. m: IDs of W already claimed"""
    s = (slice(r, r + shape[0]), slice(c, c + shape[1]))
    raster(W.filled[s], G.filled.astype(np.float64), "%s: filled terrain" % what)
    raster(W.depths[s], G.depths.astype(np.float64), "%s: depth" % what)
    ids = relabel(G.bs, W.bs[s], "%s: bluespots" % what)
    ids.pop(0, None)
    for b, c2 in ids.items():
        require(c2 not in m, "%s: bluespot %r reaches into another terrain", what, c2)
        m[c2] = b
        p, q = G.pp[b]["properties"], W.pp[c2]["properties"]
        for k in ("bspot_area", "bspot_vol", "bspot_dmax"):
            near(q[k], p[k], "%s: %s of bluespot %d" % (what, k, c2))
        h, g = G.hy[b], W.hy[c2]
        require(h["hist_counts"] == g["hist_counts"], "%s: histogram of bluespot %d is %r, alone %r", what, c2, g["hist_counts"], h["hist_counts"])
        for k in ("zmin", "zmax", "cell_area"):
            near(g[k], h[k], "%s: %s of bluespot %d" % (what, k, c2))
    if tied:
        return ids
    full = dict(ids)
    full[0] = 0
    for x, y in relabel(G.ws, W.ws[s], "%s: watersheds" % what).items():
        require(full.get(x) == y, "%s: watershed %r has become %r, its bluespot %r", what, x, y, full.get(x))
    for b, c2 in ids.items():
        p, q = G.pp[b]["properties"], W.pp[c2]["properties"]
        near(q["wshed_area"], p["wshed_area"], "%s: watershed area of %d" % (what, c2))
        d, e = G.downstream(b), W.downstream(c2)
        require((None if d is None else full[d]) == e, "%s: bluespot %d spills to %r, alone to %r", what, c2, e, None if d is None else full[d])
        p, q = G.fin[G.node[b]], W.fin[W.node[c2]]
        for k in ("inputv", "v", "spillv", "pctv"):
            near(q[k], p[k], "%s: %s of bluespot %d" % (what, k, c2))
        p, q = G.lv[b], W.lv[c2]
        for k in ("approx_z", "approx_dmax"):
            require(abs(p[k] - q[k]) <= 1e-9 * max(1.0, abs(p[k])), "%s: %s of bluespot %d is %r, alone %r", what, k, c2, q[k], p[k])
    raster(W.fd[s], G.fd.astype(np.float64), "%s: final depth" % what, 1e-6 * max(1.0, float(np.abs(G.filled).max())))
    bad = ((G.fb != 0) != (W.fb[s] != 0)) & (G.fd > 1e-5)
    require(not bad.any(), "%s: final extent differs in %d cells", what, int(bad.sum()))
    return ids


def outside(W, blocks):
    """nothing but the terrains has water"""
    free = np.ones(W.bs.shape, bool)
    for z, r, c in blocks:
        free[r:r + z.shape[0], c:c + z.shape[1]] = False
    for name in ("depths", "bs", "ws", "fd", "fb"):
        a = getattr(W, name)
        require(not a[free].any(), "%s outside of all terrains", name)


def assemble(shape, blocks):
    w = np.full(shape, VOID)
    for z, r, c in blocks:
        w[r:r + z.shape[0], c:c + z.shape[1]] = z
    return w


def evaluate(shape, blocks, mm, zres, flt, accum, native, dtype):
    use(native)
    try:
        W = Run(assemble(shape, blocks).astype(dtype), BASE, mm, zres, flt, accum)
        m = {}
        for i, (z, r, c) in enumerate(blocks):
            G = Run(z.astype(dtype), BASE, mm, zres, flt, accum)
            window(G, W, m, r, c, z.shape, G.tied(), "terrain %d" % i)
        outside(W, blocks)
        require(set(m) == set(W.pp) - {0}, "bluespots %r belong to no terrain", sorted(set(W.pp) - {0} - set(m))[:9])
        require(W.fin[W.node[0]]["bspot_vol"] == 0, "the background has a capacity")
    finally:
        use(True)
    return 10 * len(blocks), (len(m), W.bs.tobytes())


OTHERS = [np.array([[4.5, 3.25, 4.75], [3.5, 0.5, 3.75], [4.25, 3.0, 5.0]]),
          np.array([[60.0, 61.5, 62.25, 61.75, 60.25], [60.5, 10.5, 58.25, 20.75, 60.75], [62.5, 61.25, 62.0, 59.75, 63.0]]),
          np.array([[-3.0, -2.5], [-2.75, -1.0]]),
          np.array([[900.5, 901.25], [902.125, 880.0]]),
          np.array([[2.0, 1.25, 1.5], [1.625, 0.75, 1.875], [2.25, 1.75, 2.125]]) + 2.0 ** 20]


def layout(z, j):
    """-> shape of the raster, [(terrain, row, column)], the one of interest first or last"""
    R, C = z.shape
    o = OTHERS[j % len(OTHERS)]
    h, w = o.shape
    k = (j // len(OTHERS)) % 6
    if k == 0:      # beside, touching the raster edge
        return (max(R, h), C + 1 + w), [(z, 0, 0), (o, 0, C + 1)]
    if k == 1:
        return (max(R, h) + 2, C + 4 + w), [(o, 1, 1), (z, 1, w + 2)]
    if k == 2:      # above each other
        return (R + h + 3, max(C, w) + 1), [(o, 1, 0), (z, h + 2, 1)]
    if k == 3:      # only cells without data around
        return (R + 3, C + 2), [(z, 2, 1)]
    if k == 4:      # twice the same
        return (R + 1, 2 * C + 1), [(z, 1, 0), (z, 1, C + 1)]
    p = OTHERS[(j + 1) % len(OTHERS)]   # in the middle of two others
    return (max(R, h + 1, p.shape[0]) + 1, w + C + p.shape[1] + 2), [(o, 1, 0), (z, 0, w + 1), (p, 1, w + C + 2)]


def params(k):
    return ((700.0, 20.0, 3000.0, 64.0)[k % 4], (0.25, 0.1, 1.0)[k % 3], FILTERS[(k // 2) % 4], k % 4 != 1, k % 7 != 3, (np.float64, np.float32)[(k // 3) % 2])


def one(rec, z, j):
    z = z + gold(z.shape, j)
    if j % 11 in (2, 6, 9):
        # decimals, many of them just above or below limits of classes
        z = np.round(np.round(z * 10) / 10 + gold(z.shape, j) / 20, 5).astype(np.float32).astype(np.float64)
    shape, blocks = layout(z, j)
    mm, zres, flt, accum, native, dtype = params(j)
    rec.check(lambda: dict(dem=z, raster=shape, at=[b[1:] for b in blocks], mm=mm, zresolution=zres, filter=flt, accum=accum, native=native, dtype=np.dtype(dtype).name),
              evaluate, shape, blocks, mm, zres, flt, accum, native, dtype)


def basins(rec, shape, levels, wall, outlets, sh, n, step=1):
    k = -1
    for z in spaces.basins(shape, levels, wall, outlets, np.float64):
        k += 1
        if (k // step) % n == sh and k % step == 0:
            one(rec, z, k // step)


def grids(rec, shape, levels, sh, n, step=1):
    k = -1
    for z in spaces.grids(shape, levels, np.float64):
        k += 1
        if (k // step) % n == sh and k % step == 0:
            one(rec, z, k // step)


# ------------------------------------------------------------------------------------------------ many, and far away
NINE = []
for _s in range(9):
    _z = np.full((3, 3), 5.0)
    _z[1, 1] = 1.0 + 0.25 * _s
    _z[0, _s % 3] = 4.0 + 0.125 * (_s // 3)
    NINE.append(_z + gold((3, 3), _s))


def many(N, M, zres, accum):
    """N x M single pits; same as each pit alone"""
    n = N * M
    w = np.full((4 * N, 4 * M), VOID)
    for r in range(N):
        for c in range(M):
            w[4 * r:4 * r + 3, 4 * c:4 * c + 3] = NINE[(r * 5 + c) % 9]
    use(True)
    G = [Run(z, BASE, MM, zres, None, accum) for z in NINE]
    for g in G:
        require(sorted(g.pp) == [0, 1], "harness: %d bluespots in a single pit", len(g.pp) - 1)
    B = Run(w, BASE, MM, zres, None, accum)
    require(len(B.pp) == n + 1, "%d bluespots, expected %d", len(B.pp) - 1, n)
    require(sorted(B.pp) == list(range(n + 1)), "IDs of the bluespots are not 1..%d", n)
    seen = B.bs[1::4, 1::4]
    require(len(np.unique(seen)) == n and seen.min() > 0, "two pits share a bluespot")
    for r in range(N):
        for c in range(M):
            i = int(seen[r, c])
            g = G[(r * 5 + c) % 9]
            p, q = g.pp[1]["properties"], B.pp[i]["properties"]
            for k in ("bspot_area", "bspot_vol", "bspot_dmax", "wshed_area", "bspot_fumm"):
                near(q[k], p[k], "%s of bluespot %d" % (k, i))
            p, q = g.fin[g.node[1]], B.fin[B.node[i]]
            for k in ("inputv", "v", "spillv", "pctv"):
                near(q[k], p[k], "%s of bluespot %d" % (k, i))
            near(B.lv[i]["approx_z"], g.lv[1]["approx_z"], "level of bluespot %d" % i)
            near(B.hy[i]["zmax"], g.hy[1]["zmax"], "zmax of bluespot %d" % i)
            require(B.downstream(i) is None, "bluespot %d spills into another terrain", i)
    for k, g in enumerate(G):
        rr, cc = np.nonzero((np.arange(N)[:, None] * 5 + np.arange(M)) % 9 == k)
        for name in ("filled", "depths", "fd"):
            a, want = getattr(B, name), getattr(g, name)
            for y in range(3):
                for x in range(3):
                    bad = np.abs(a[4 * rr + y, 4 * cc + x].astype(np.float64) - float(want[y, x])) > 1e-5
                    require(not bad.any(), "%s of %d of the terrains %d", name, int(bad.sum()), k)
        for name in ("bs", "ws", "fb"):
            a, want = getattr(B, name), getattr(g, name)
            for y in range(3):
                for x in range(3):
                    got = a[4 * rr + y, 4 * cc + x]
                    bad = got != (seen[rr, cc] if want[y, x] else 0)
                    require(not bad.any(), "%s of %d of the terrains %d", name, int(bad.sum()), k)
    return n


def manies(rec, n, m, zres, accum):
    rec.check(dict(terrains=n * m, zresolution=zres, accum=accum), many, n, m, zres, accum)


def many_filtered(N, M, native):
    """as many, with a filter: every pit is kept or dropped as if it was alone"""
    from malstroem import dem as demtool, bluespots
    from ..util import MemRaster, MemVector
    w = np.full((4 * N, 4 * M), VOID)
    kind = (np.arange(N)[:, None] * 5 + np.arange(M)) % 9
    for k, z in enumerate(NINE):
        for y in range(3):
            for x in range(3):
                w[y::4, x::4][kind == k] = z[y, x]
    use(native)
    try:
        def chain(z):
            R = lambda a: MemRaster(np.array(a), BASE)
            filled, fd, depths, bs, pp, ws = MemRaster(), MemRaster(), MemRaster(), MemRaster(), MemVector(), MemRaster()
            demtool.DemTool(R(z), filled, fd, depths).process()
            bluespots.BluespotTool(R(depths.out), R(fd.out), lambda s: s["max"] < 2.6 or s["volume"] > 12.5, bs, pp, ws, None, R(z)).process()
            return bs.out, ws.out, pp.out
        alone = [chain(z) for z in NINE]
        require(sorted(set(len(a[2]) for a in alone)) == [1, 2], "harness: the filter keeps %r", [len(a[2]) for a in alone])
        bs, ws, pp = chain(w)
    finally:
        use(True)
    for k, (b, v, p) in enumerate(alone):
        for name, a, want in (("bluespots", bs, b), ("watersheds", ws, v)):
            for y in range(3):
                for x in range(3):
                    got = a[y::4, x::4][kind == k]
                    bad = (got != 0) != bool(want[y, x])
                    require(not bad.any(), "%s: %d of %d copies of terrain %d differ from it at cell (%d, %d)", name, int(bad.sum()), len(got), k, y, x)
                    if want[y, x]:
                        require((got == bs[1::4, 1::4][kind == k]).all(), "%s: copies of terrain %d have cells of others at (%d, %d)", name, k, y, x)
    ids = bs[1::4, 1::4]
    kept = int((ids != 0).sum())
    require(len(np.unique(ids[ids != 0])) == kept == len(pp) - 1, "%d pour points, %d different IDs, expected %d", len(pp), len(np.unique(ids)), kept)
    P = {f["properties"]["bspot_id"]: f["properties"] for f in pp}
    for k, (b, v, p) in enumerate(alone):
        for i in ids[(kind == k) & (ids != 0)].tolist():
            for a in ("bspot_area", "bspot_vol", "bspot_dmax", "wshed_area"):
                near(P[i][a], p[1]["properties"][a], "%s of bluespot %d" % (a, i))
    return N * M


def many_kept(rec, n, m, native):
    rec.check(dict(terrains=n * m, filter=True, native=native), many_filtered, n, m, native)


MEET = np.array([[9] * 6, [9, 1, 8, 7, 2, 9], [9, 6, 5, 5.5, 6.5, 9], [9, 9, 4, 8, 9, 9], [9, 9, 3, 9, 9, 9], [9, 9, 2.5, 9, 9, 9]]) + gold((6, 6), 1)


def streams_of(z, native):
    from malstroem import dem as demtool, bluespots, streams
    from ..util import MemRaster, MemVector
    use(native)
    try:
        r = lambda a: MemRaster(np.array(a), BASE)
        filled, fd, depths, bs, pp, ws = MemRaster(), MemRaster(), MemRaster(), MemRaster(), MemVector(), MemRaster()
        demtool.DemTool(r(z), filled, fd, depths).process()
        bluespots.BluespotTool(r(depths.out), r(fd.out), None, bs, pp, ws, None, r(z)).process()
        nodes, lines = MemVector(), MemVector()
        streams.StreamTool(MemVector(pp.out), r(bs.out), r(fd.out), nodes, lines).process()
    finally:
        use(True)
    return bs.out, nodes.out, lines.out


def cascade(n):
    """n pits in a row, each spills into the next one"""
    k = np.arange(2 * n + 1)
    w = np.full((3, 2 * n + 1), 1000.0)
    w[1] = np.where(k % 2, 0.0, 4.0) - k / 512.0
    return w


def many_meet(n, native, at):
    """MEET beside a terrain with n bluespots: streams meet there as they do alone"""
    R, C = MEET.shape
    z = np.full((R + 4 + 2, 2 * n + 2), VOID)
    first, r0, c0 = (3 + 1 if at else 0), (0 if at else R + 1), 1
    z[first:first + R, at:at + C] = MEET
    z[r0:r0 + 3, c0:c0 + 2 * n + 1] = cascade(n)
    _, alone, al = streams_of(MEET, native)
    bs, every, lines = streams_of(z, native)
    kinds = sorted(f["properties"]["nodetype"] for f in alone)
    require(kinds == ["junction", "pourpoint", "pourpoint", "pourpoint"], "harness: a single terrain has nodes %r", kinds)
    nodes = {f["properties"]["nodeid"]: f for f in every}
    require(len(every) == len(nodes), "%d nodes with %d different IDs", len(every), len(nodes))
    node = {f["properties"]["bspot_id"]: f["properties"] for f in every if f["properties"]["nodetype"] == "pourpoint"}
    require(sorted(node) == list(range(n + 3)), "%d pour points, expected %d", len(node), n + 3)
    a, b = (int(bs[first + 1, at + c]) for c in (1, 4))
    require(a and b and a != b, "bluespots %d and %d", a, b)
    p, q = node[a]["dstrnodeid"], node[b]["dstrnodeid"]
    require(p == q and p in nodes and nodes[p]["properties"]["nodetype"] == "junction", "the streams which should meet go to nodes %r and %r", p, q)
    hx, hy = next(f for f in alone if f["properties"]["nodetype"] == "junction")["geometry"]["coordinates"][:2]
    x, y = nodes[p]["geometry"]["coordinates"][:2]
    require(abs(x - hx - at * BASE[1]) + abs(y - hy - first * BASE[5]) < 1e-6, "junction at %r, expected %r", (x, y), (hx + at * BASE[1], hy + first * BASE[5]))
    ids = [int(i) for i in bs[r0 + 1, c0 + 1:c0 + 2 * n + 1:2]]
    require(len(set(ids)) == n and 0 not in ids, "%d bluespots in the cascade, expected %d", len(set(ids)), n)
    for i, j in zip(ids, ids[1:]):
        d = node[i]["dstrnodeid"]
        require(d in nodes and nodes[d]["properties"]["nodetype"] == "pourpoint" and nodes[d]["properties"]["bspot_id"] == j,
                "bluespot %d of the cascade goes to node %r, not to bluespot %d", i, d, j)
    return n


def many_met(rec, n, native, at):
    rec.check(dict(bluespots=n, meet=True, native=native, at=at), many_meet, n, native, at)


def far(rec, shape, sh, n):
    R, C = shape
    z = terrain(min(R, 9) - 2, min(C, 9) - 2, 2)
    h, w = z.shape
    for i, (r, c) in enumerate(((R - h, C - w), (R - h - 1, C - w - 1), (min(R - h, 32765), min(C - w, 32765)), (min(R - h, 65533), min(C - w, 65533)), (0, 0))):
        if i % n == sh:
            other = OTHERS[1][:3, :] if C >= R else OTHERS[1].T
            blocks = [(z, r, c)]
            rec.check(dict(shape=shape, at=(r, c)), evaluate, shape, blocks, MM, ZRES, None, i % 2 == 0, True, np.float32)
            blocks = [(z, r, c), (other, 0, 0 if c > 10 else C - other.shape[1])] if C >= R else [(z, r, c), (other, 0 if r > 10 else R - other.shape[0], 0)]
            rec.check(dict(shape=shape, at=(r, c), other=True), evaluate, shape, blocks, MM, ZRES, FILTERS[1], i % 2 == 1, True, np.float64)


# ------------------------------------------------------------------------------------------------ commands
def command(blocks, shape, nodata, mm, zres):
    w = assemble(shape, blocks)
    w[w == VOID] = nodata
    with Scratch() as s:
        from .c19 import WKT
        o = s("w")
        os.mkdir(o)
        write_tif(s("w.tif"), w, BASE, WKT, nodata)
        run_ok("complete", "-dem", s("w.tif"), "-outdir", o, "-mm", repr(mm), "-zresolution", repr(zres), "-accum", "-vector")
        gp = os.path.join(o, "malstroem.gpkg")
        W = Run.__new__(Run)
        for k, f in (("filled", "filled"), ("depths", "bs_depths"), ("bs", "bluespots"), ("ws", "watersheds"), ("fd", "finaldepths"), ("fb", "finalbluespots")):
            setattr(W, k, read_tif(os.path.join(o, f + ".tif"))[0])
        W.pp = {x["properties"]["bspot_id"]: x for x in read_layer(gp, "pourpoints")}
        W.fin = {x["properties"]["nodeid"]: x["properties"] for x in read_layer(gp, "finalstate")}
        W.node = {p["bspot_id"]: i for i, p in W.fin.items() if p["nodetype"] == "pourpoint"}
        W.lv = {x["properties"]["bspot_id"]: x["properties"] for x in read_layer(gp, "finallevels")}
        W.hy = {x["properties"]["bspot_id"]: x["properties"] for x in read_layer(gp, "hypsometry")}
        m = {}
        for i, (z, r, c) in enumerate(blocks):
            G = chain(s, "g%d" % i, z, BASE, mm, zres)
            window(G, W, m, r, c, z.shape, G.tied(), "terrain %d" % i)
        outside(W, blocks)
        require(set(m) == set(W.pp) - {0}, "bluespots %r belong to no terrain", sorted(set(W.pp) - {0} - set(m))[:9])
    return 20


def commands(rec, sh, n):
    for k in range(12):
        if k % n == sh:
            a, b = terrain(7 + k % 3, 9, k + 1), terrain(5, 6 + k % 2, k + 3)
            shape, blocks = layout(a, 4 * k)
            blocks = [(z, r, c) for z, r, c in blocks]
            if k % 2:
                shape, blocks = (a.shape[0] + b.shape[0] + 1, 12), [(a, 0, 2), (b, a.shape[0] + 1, 0)]
            rec.check(dict(command="complete", k=k), command, blocks, shape, (-9999.0, -999.0, 1e10)[k % 3], (700.0, 20.0)[k % 2], 0.5)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("many", manies, 3, 22000 if T else 11500, 0.25, False)
    J.add("many-filter", many_kept, 3, 12000, True)
    J.add("many-filter", many_kept, 270, 260, True)
    J.add("many-filter", many_kept, 7, 9, False)
    for n, at in ((65600, 0), (40000, 9), (70000, 5)):
        J.add("many-meet", many_met, n, True, at)
    J.add("many-meet", many_met, 50, False, 3)
    J.add("far-columns", far, (9, 70000), SH, NS, n=3)
    J.add("far-rows", far, (70000, 9), SH, NS, n=3)
    J.add("many-accum", manies, 60, 40, 0.1, True)
    J.add("commands", commands, SH, NS, n=4)
    J.add("4x4", basins, (4, 4), [1, 2, 5], 5, spaces.single_outlets((4, 4), [2]), SH, NS, n=8)
    J.add("3x5", basins, (3, 5), [1, 2, 4], 5, spaces.single_outlets((3, 5), [0, 2]), SH, NS, n=4)
    J.add("3x3", grids, (3, 3), [0, 1, 2], SH, NS, 1 if T else 5, n=8)
    J.add("5x5", basins, (5, 5), [1, 4], 5, spaces.single_outlets((5, 5), [2, 3]), SH, NS, 1 if T else 12, n=8)
    if T:
        J.add("4x4-all", grids, (4, 4), [0, 2], SH, NS, n=16)
        J.add("3x4-all", grids, (3, 4), [0, 1, 2], SH, NS, 5, n=16)
        J.add("4x5", basins, (4, 5), [1, 2, 5], 5, spaces.single_outlets((4, 5), [2, 4]), SH, NS, n=16)
        J.add("far-both", far, (2500, 2500), SH, NS, n=5)
    return J
