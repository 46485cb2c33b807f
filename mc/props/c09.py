"""C09: the stream network is a forest that follows the flow directions."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, MemRaster, MemVector, pipeline, require_close, TRANSFORMS, cell_centre, cell_area

BOUNDS = ("all acyclic 4x4 direction rasters (outward edges) x placements of up to four bluespots; all funnels (cells flowing down, down left, down right) of 4x5, 5x5 and 5x6 "
          "with pour points in the upper rows and 0..2 catching bluespots; pour point features in any order and with gaps in their IDs; networks of all 5x5/4x6 basins and of textures; combs with up to 1100 successive junctions; 66000 bluespots; streams over 320000 cells; label types used up to their last value")
ASSUMPTIONS = ["the background pour point lies on a raster edge cell, as the bluespot tool places it", "flow directions are acyclic",
               "each ID of the raster has a pour point; pour points which are plain cells have the IDs 0..n in this order"]


def check(fd, lab, pps, nodes, what="network"):
    """nodes: list of dicts id, downstream_id, nodetype, pix, geometry (list of cells or None when not calculated)"""
    fl, ll = fd, lab
    if not isinstance(pps, dict):
        pps = dict(enumerate(pps))
    n = max(pps)
    idx = {}
    for x in nodes:
        require(x["id"] not in idx, "%s: node id %r twice", what, x["id"])
        idx[x["id"]] = x
    inflow = {}
    for x in nodes:
        d = x["downstream_id"]
        if d is not None:
            require(d in idx, "%s: node %r flows to unknown node %r", what, x["id"], d)
            inflow[d] = inflow.get(d, 0) + 1
    used = set()
    for x in nodes:
        i = x["id"]
        pix = tuple(x["pix"])
        if x["nodetype"] == "pourpoint":
            require(i in pps, "%s: pour point node has id %r", what, i)
            require(pix == tuple(pps[i]), "%s: pour point node %r at %r, expected %r", what, i, pix, pps[i])
        else:
            require(x["nodetype"] == "junction", "%s: node type %r", what, x["nodetype"])
            require(i > n, "%s: junction has id %r, largest bluespot ID is %r", what, i, n)
            require(inflow.get(i, 0) >= 2, "%s: junction %r has %d inflows", what, i, inflow.get(i, 0))
        g = x["geometry"]
        if g is None:
            continue
        g = [tuple(c) for c in g]
        d = x["downstream_id"]
        require(len(g) >= 1 and g[0] == pix, "%s: stream of node %r starts at %r, node is at %r", what, i, g[:1], pix)
        for a, b in zip(g, g[1:]):
            require(ref.downstream(fl, *a) == b, "%s: stream of node %r goes from %r to %r against the flow direction", what, i, a, b)
            require(a not in used, "%s: two streams share the step from %r to %r", what, a, b)
            used.add(a)
        if d is None:
            require(ref.downstream(fl, *g[-1]) is None, "%s: stream of node %r ends at %r although flow continues", what, i, g[-1])
        elif idx[d]["nodetype"] == "junction":
            require(g[-1] == tuple(idx[d]["pix"]), "%s: stream of node %r ends at %r, downstream node is at %r", what, i, g[-1], idx[d]["pix"])
        else:
            require(ll[g[-1][0]][g[-1][1]] == d, "%s: stream of node %r ends at %r which is not in bluespot %r", what, i, g[-1], d)
    for i in pps:
        require(i in idx and idx[i]["nodetype"] == "pourpoint", "%s: no node for pour point %r", what, i)
        src = ll[pps[i][0]][pps[i][1]]
        expect = None
        for c in ref.trace(fl, tuple(pps[i])):
            v = ll[c[0]][c[1]]
            if v != src and v != 0:
                expect = v
                break
        d, hops = idx[i]["downstream_id"], 0
        while d is not None and idx[d]["nodetype"] == "junction":
            d = idx[d]["downstream_id"]
            hops += 1
            require(hops <= len(nodes), "%s: downstream ids of node %r never end", what, i)
        require(d == expect, "%s: pour point %r leads to %r, expected %r", what, i, d, expect)
    # no cycles at all
    state = {}
    for i in idx:
        path = []
        while i is not None and i not in state:
            state[i] = 1
            path.append(i)
            i = idx[i]["downstream_id"]
        require(i is None or state[i] == 2, "%s: downstream ids form a cycle through %r", what, i)
        for p in path:
            state[p] = 2
    require(len(idx) - len(pps) == sum(1 for x in nodes if x["nodetype"] == "junction"), "%s: unexpected nodes", what)


def evaluate(fd, lab, pps):
    from malstroem.algorithms import net
    nodes = net.geometric_pourpoint_network(fd, lab, pps, 0)
    check(fd.tolist(), lab.tolist(), pps, nodes)
    simple = net.pourpoint_network(fd, lab, pps, 0)
    check(fd.tolist(), lab.tolist(), pps, [dict(x, geometry=None) for x in simple], "simple network")
    return 2, (len(nodes), tuple((x["id"], x["downstream_id"]) for x in nodes))


def gaps(rec, R, C, sh, n, catch, pprows, step=1):
    """As funnel; pour points are features with IDs which leave out some numbers, in any order"""
    inner = spaces.interior((R, C))
    alph = [[ref.edge_code(r, c, R, C)] if (r, c) not in inner else [4] + [5] * (c > 1) + [3] * (c < C - 2) for r in range(R) for c in range(C)]
    cells = [(0, 0)]
    for c in list(catch) + [c for c in inner if c[0] in pprows]:
        if c not in cells:
            cells.append(c)
    m = len(cells)
    plans = []
    for ids in ([0] + [2 + i for i in range(m - 1)], [0] + [m - 1 - i for i in range(m - 1)], [0] + [3 * i + 1 for i in range(m - 1)], [0, m] + list(range(1, m - 1)), [0] + [1000 - 7 * i for i in range(m - 1)]):
        for o in (range(m), range(m)[::-1], list(range(1, m)) + [0]):
            lab = np.zeros((R, C), np.int32)
            for i, c in zip(ids[1:], cells[1:]):
                lab[c] = i
            feats = [dict(type="Feature", id=k, geometry=None, properties=dict(bspot_id=ids[j], cell_row=cells[j][0], cell_col=cells[j][1], bspot_area=1.0, bspot_vol=2.0, wshed_area=3.0))
                     for k, j in enumerate(o)]
            plans.append((lab, dict(zip(ids, cells)), feats))
    for k, fd in enumerate(spaces.grids((R, C), alph, np.uint8, sh, n)):
        if k % step:
            continue
        lab, pps, feats = plans[(k // step) % len(plans)]
        rec.check(lambda: dict(flowdir=fd, pourpoints=sorted(pps.items()), order=[f["properties"]["bspot_id"] for f in feats]), features, fd, lab, pps, feats, k % 3 == 0)


def features(fd, lab, pps, feats, whole):
    from malstroem.algorithms import net
    nodes = net.geometric_pourpoint_network(fd, lab, feats, 0)
    check(fd.tolist(), lab.tolist(), pps, nodes)
    simple = net.pourpoint_network(fd, lab, feats, 0)
    check(fd.tolist(), lab.tolist(), pps, [dict(x, geometry=None) for x in simple], "simple network")
    if whole:
        tr = TRANSFORMS[1]
        props = {f["properties"]["bspot_id"]: dict(bspot_area=1.0, bspot_vol=2.0, wshed_area=3.0) for f in feats}
        tool(None, dict(flowdir=fd), lab, pps, tr, True, props, feats)
        tool(None, dict(flowdir=fd), lab, pps, tr, False, props, feats)
    return 2, (len(nodes), tuple((x["id"], x["downstream_id"]) for x in nodes))


def forests(rec, shape, placements, sh, n):
    for fds, nx in spaces.forests(shape, spaces.dir_alphabet(shape, "out"), sh, n):
        for fd in fds:
            for cells in placements:
                lab = np.zeros(shape, np.int32)
                pps = [(0, 0)]
                for i, c in enumerate(cells):
                    lab[c] = i + 1
                    pps.append(c)
                rec.check(lambda: dict(flowdir=fd, pourpoints=pps), evaluate, fd, lab, pps)


def placements4():
    inner = [(1, 1), (1, 2), (2, 1), (2, 2)]
    out = []
    for k in (1, 2, 3, 4):
        out += list(itertools.combinations(inner, k))
    out += [((1, 1), (1, 2), (3, 1)), ((2, 2), (1, 1), (0, 1), (1, 2))]
    return out


def funnel(rec, R, C, sh, n, catch, pprows):
    """Interior cells flow down, down left or down right; edges outward. Bluespots: the cells of the given interior rows; with
    catch: additional bluespots on these cells"""
    inner = spaces.interior((R, C))
    alph = [[ref.edge_code(r, c, R, C)] if (r, c) not in inner else [4] + [5] * (c > 1) + [3] * (c < C - 2) for r in range(R) for c in range(C)]
    cells = [c for c in inner if c[0] in pprows]
    lab = np.zeros((R, C), np.int32)
    pps = [(0, 0)]
    for c in list(catch) + cells:
        if lab[c] == 0:
            lab[c] = len(pps)
            pps.append(c)
    for fd in spaces.grids((R, C), alph, np.uint8, sh, n):
        rec.check(lambda: dict(flowdir=fd, pourpoints=pps), evaluate, fd, lab, pps)


def tool(dem, p, lab, pps, tr, streams, props, feats=None):
    from malstroem.streams import StreamTool
    feats = feats or [dict(type="Feature", id=i, geometry=dict(type="Point", coordinates=list(cell_centre(tr, *c))),
                  properties=dict(props[i], bspot_id=i, cell_row=c[0], cell_col=c[1])) for i, c in enumerate(pps)]
    nodes, lines = MemVector(), MemVector() if streams else None
    StreamTool(MemVector(feats), MemRaster(lab, tr), MemRaster(p["flowdir"], tr), nodes, lines).process()
    geoms = {}
    if streams:
        inv = {}
        for r in range(lab.shape[0]):
            for c in range(lab.shape[1]):
                inv[_key(cell_centre(tr, r, c))] = (r, c)
        for f in lines.out:
            require(f["geometry"]["type"] == "LineString", "stream of type %r", f["geometry"]["type"])
            g = []
            for xy in f["geometry"]["coordinates"]:
                require(_key(xy) in inv, "stream vertex %r is not a cell centre", xy)
                g.append(inv[_key(xy)])
            i = f["properties"]["nodeid"]
            require(i not in geoms, "two streams for node %r", i)
            geoms[i] = (g, f["properties"]["dstrnodeid"])
    out = []
    for f in nodes.out:
        q = f["properties"]
        i = q["nodeid"]
        pix = (q["cell_row"], q["cell_col"])
        xy = cell_centre(tr, *pix)
        require(f["geometry"]["type"] == "Point" and _key(f["geometry"]["coordinates"]) == _key(xy), "node %r at %r, expected %r", i, f["geometry"], xy)
        out.append(dict(id=i, downstream_id=q["dstrnodeid"], nodetype=q["nodetype"], pix=pix, geometry=geoms[i][0] if streams and i in geoms else None))
        if streams and (q["dstrnodeid"] is not None or i in geoms):
            require(i in geoms, "no stream for node %r", i)
            require(geoms[i][1] == q["dstrnodeid"], "stream and node %r disagree about the downstream node", i)
        if q["nodetype"] == "junction":
            require(q["bspot_id"] is None and q["bspot_vol"] == 0 and q["bspot_area"] == 0 and q["wshed_area"] == 0, "junction %r has properties %r", i, q)
        else:
            require(q["bspot_id"] == i, "pour point node %r has bspot_id %r", i, q["bspot_id"])
            for k, v in props[i].items():
                require(q[k] == v, "pour point node %r: %s is %r, expected %r", i, k, q[k], v)
    if streams:
        require(set(geoms) <= {x["id"] for x in out}, "streams without node")
    check(p["flowdir"].tolist(), lab.tolist(), pps, out)
    return 1, len(out)


def _key(xy):
    return (round(xy[0] * 1000), round(xy[1] * 1000))


def derived(dem):
    p = pipeline(dem)
    lab = np.zeros(dem.shape, np.int32)
    nf = p["noflats"]
    pps = [None]
    inb = np.zeros(dem.shape, bool)
    for i, comp in enumerate(ref.components(p["depths"].tolist())):
        for c in comp:
            lab[c] = i + 1
            inb[c] = True
        pps.append(min(comp, key=lambda c: (nf[c], c)))
    r, c = np.unravel_index(np.argmin(np.where(inb, np.inf, nf)), nf.shape)
    pps[0] = (int(r), int(c))
    props = [dict(bspot_area=1.5 * i + 1, bspot_vol=0.25 * i, wshed_area=3.0 + i) for i in range(len(pps))]
    return p, lab, pps, props


def basins(rec, shape, levels, outl, sh, n, step=1):
    use(True)
    for k, g in enumerate(spaces.basins(shape, levels, 3, outl, np.float32, sh, n)):
        if k % step:
            continue
        p, lab, pps, props = derived(g)
        tr = TRANSFORMS[k % 8]
        rec.check(lambda: dict(dem=g, transform=tr), tool, g, p, lab, pps, tr, (k // 5) % 4 != 0, props)


def textures(rec, R, C, k, lv):
    use(True)
    g = spaces.texture(R, C, k, lv).astype(np.float32)
    p, lab, pps, props = derived(g)
    for tr in TRANSFORMS[:2] + TRANSFORMS[5:]:
        for streams in (True, False):
            rec.check(dict(texture=(R, C, k, lv), transform=tr, streams=streams), tool, g, p, lab, pps, tr, streams, props)


def comb(rec, n, kind):
    """n pour points joining one stream one after another"""
    R, C = 4, n + 3
    fd = np.full((R, C), 6, np.uint8)
    fd[0], fd[-1] = 0, 4
    fd[:, 0], fd[:, -1] = 6, 2
    fd[1] = 4        # second row flows down into the third which flows left
    fd[0, 0], fd[0, -1], fd[-1, 0], fd[-1, -1] = 7, 1, 5, 3
    fd[1, 0], fd[1, -1] = 6, 2
    fd[2, 0] = 6
    lab = np.zeros((R, C), np.int32)
    pps = [(0, 0)]
    cells = [(1, c) for c in range(2, 2 + n)]
    if kind == "reversed":
        cells = cells[::-1]
    elif kind == "interleaved":
        cells = cells[::2] + cells[1::2]
    if kind == "caught":
        cells = [(2, 1)] + cells
    for c in cells:
        lab[c] = len(pps)
        pps.append(c)
    rec.check(dict(comb=n, kind=kind), evaluate, fd, lab, pps)


def many(rec, R, C, dtype):
    """More bluespots than 16 bits can count, every other cell of the rows, and streams which join at the right"""
    fd = np.full((R, C), 2, np.uint8)
    fd[0], fd[-1], fd[:, 0], fd[:, -1] = 0, 4, 6, 2
    fd[2:-1:2, C - 3] = 1                        # every second row joins the row above
    lab = np.zeros((R, C), dtype)
    lab[1:-1, 1:C - 4:2] = 1
    cells = [tuple(int(v) for v in x) for x in np.argwhere(lab)]
    k = np.arange(len(cells)) * 7919 % len(cells) if len(cells) % 7919 else np.arange(len(cells))
    cells = [cells[int(i)] for i in k]
    for i, c in enumerate(cells):
        lab[c] = i + 1
    rec.check(dict(bluespots=len(cells), type=str(np.dtype(dtype))), evaluate, fd, lab, [(R - 1, C - 1)] + cells)


def long(rec, R, C):
    """A stream along all cells, some more bluespots on it"""
    fd = spaces.snake(R, C)
    pos = spaces.snake_positions(R, C)
    m = int(pos.max())
    for at in ((m, 1), (m, m // 2, 1), (m, m // 3, 5)):
        lab = np.zeros((R, C), np.int32)
        pps = [(0, 0)]
        for k in at:
            c = tuple(int(x) for x in np.argwhere(pos == k)[0])
            lab[c] = len(pps)
            pps.append(c)
        rec.check(dict(snake=(R, C), at=at), evaluate, fd, lab, pps)


def full(rec):
    """The label type is used up to its last value, junctions need larger ids"""
    for dtype, n in ((np.uint8, 255), (np.int8, 127), (np.uint8, 127), (np.uint8, 128), (np.int16, 60), (np.uint16, 60), (np.int64, 60), (np.uint32, 60)):
        for step in (1, 2):
            R, C = 4, step * n + 3
            fd = np.full((R, C), 6, np.uint8)
            fd[0], fd[-1], fd[:, -1] = 0, 4, 2
            fd[1, 1:-1] = 4
            lab = np.zeros((R, C), dtype)
            pps = [(R - 1, C - 1)]
            for i in range(n):
                c = (1, 1 + i * step)
                lab[c] = i + 1
                pps.append(c)
            rec.check(dict(bluespots=n, type=str(np.dtype(dtype)), step=step), evaluate, fd, lab, pps)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for kind in ("plain", "reversed", "interleaved", "caught"):
        J.add("comb-" + kind, comb, 1100 if kind == "plain" else 300, kind)
    J.add("many", many, 202, 682, np.int32)
    J.add("full", full)
    J.add("long", long, 501, 640)
    J.add("long-rows", long, 3, 9000)
    J.add("forest4x4", forests, (4, 4), placements4(), SH, NS, n=8)
    J.add("gaps4x5", gaps, 4, 5, SH, NS, [], (1, 2))
    J.add("gaps5x5", gaps, 5, 5, SH, NS, [], (1,), 1 if T else 2, n=4)
    J.add("gaps5x5-catch", gaps, 5, 5, SH, NS, [(3, 2)], (1, 2), 1 if T else 2, n=4)
    J.add("funnel4x5", funnel, 4, 5, SH, NS, [], (1, 2))
    J.add("funnel5x5", funnel, 5, 5, SH, NS, [], (1,), n=4)
    J.add("funnel5x5-two-rows", funnel, 5, 5, SH, NS, [(3, 2)], (1, 2), n=4)
    J.add("funnel5x5-catch", funnel, 5, 5, SH, NS, [(4, 2)], (1,), n=4)
    J.add("funnel6x5", funnel, 6, 5, SH, NS, [(5, 2)], (1,), n=16)
    J.add("basin5x5", basins, (5, 5), [0, 2], spaces.single_outlets((5, 5), [0, 1]), SH, NS, n=8)
    J.add("basin4x6", basins, (4, 6), [0, 1, 2], spaces.single_outlets((4, 6), [1]), SH, NS, 4, n=8)
    J.add("basin7x4", basins, (7, 4), [0, 2], spaces.pair_outlets((7, 4), [1]), SH, NS, 4, n=8)
    for R, C, k, lv in ((12, 9, 1, 3), (25, 31, 2, 6), (40, 50, 3, 50), (90, 70, 4, 9), (200, 150, 5, 30)):
        J.add("texture%dx%d" % (R, C), textures, R, C, k, lv)
    if T:
        J.add("funnel5x6", funnel, 5, 6, SH, NS, [(4, 2), (4, 4)], (1, 2), n=64)
        J.add("funnel5x6-free", funnel, 5, 6, SH, NS, [], (1,), n=64)
        J.add("funnel6x5-free", funnel, 6, 5, SH, NS, [], (1, 2), n=64)
        J.add("basin5x5-pairs", basins, (5, 5), [0, 2], spaces.pair_outlets((5, 5), [0, 1]), SH, NS, n=64)
        J.add("comb-long", comb, 2200, "plain")
    return J
