"""C26: flow can be followed downstream and upstream exactly."""
import itertools

import numpy as np

from .. import ref, spaces
from ..core import require, same
from ..util import Jobs, SH, NS, use

BOUNDS = ("all direction rasters (also with cycles and pits) of 2x2 and 2x3 for neighbours; all acyclic ones of 2x2, 2x3, 3x2, 3x3 (reduced off-raster codes) and 4x4 (edges outward) for tracing; all orders of the "
          "leaves (up to 6) for incremental accumulation; all placements of up to two labels for the next label and for watersheds upstream of a cell; all shapes up to 9x9 for edge cells; number types and layouts; paths over up to 320000 cells")
ASSUMPTIONS = ["direction codes 0..8 as documented", "flow directions are acyclic where a path is followed"]

TYPES = (np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64)


def fl():
    from malstroem.algorithms import flow
    return flow


def geometry(rec):
    from malstroem.algorithms import flow, _raster_utils as ru
    for d in range(8):
        for t in (int,) + TYPES:
            rec.check(dict(direction=d, type=t.__name__), lambda: (require(tuple(flow.direction_to_delta(t(d))) == ref.DELTA[d], "direction %r leads to %r", d, flow.direction_to_delta(t(d))), 1)[1])
            for cell in itertools.product((0, 1, 5, 70000), repeat=2):
                e = (cell[0] + ref.DELTA[d][0], cell[1] + ref.DELTA[d][1])
                rec.check(dict(cell=cell, direction=d), lambda: (require(tuple(flow.cell_in_direction(cell, t(d))) == e, "cell in direction %r of %r is %r", d, cell, flow.cell_in_direction(cell, t(d))), 1)[1])

    def nothing(d):
        try:
            r = flow.direction_to_delta(d)
        except Exception:
            require(d != 8 and d is not None, "no flow (%r) is refused", d)
            return 1
        require((d == 8 or d is None) and r is None, "direction %r leads to %r", d, r)
        return 1
    for d in (8, None, 9, -1, 255, 100):
        rec.check(dict(direction=d), nothing, d)

    def inside(shape, cell):
        require(bool(ru.cell_in_raster(shape, cell)) == (0 <= cell[0] < shape[0] and 0 <= cell[1] < shape[1]), "cell %r in raster of %r: %r", cell, shape, ru.cell_in_raster(shape, cell))
        return 1

    def edges(shape):
        got = [tuple(int(x) for x in c) for c in ru.edge_cell_indexes(shape)]
        want = {(r, c) for r in range(shape[0]) for c in range(shape[1]) if ref.is_edge(r, c, *shape)}
        require(set(got) == want, "edge cells of %r: %r too many, %r missing", shape, sorted(set(got) - want), sorted(want - set(got)))
        if min(shape) > 1:
            require(len(got) == len(want), "edge cells of %r more than once", shape)
        return 1
    for R, C in itertools.product(range(1, 10), repeat=2):
        rec.check(dict(shape=(R, C)), edges, (R, C))
        for cell in itertools.product(range(-2, R + 2), range(-2, C + 2)):
            rec.check(dict(shape=(R, C), cell=cell), inside, (R, C), cell)
    for shape in ((1, 500), (500, 1), (300, 2), (70000, 3), (2, 2)):
        rec.check(dict(shape=shape), edges, shape)


def neighbours(fd, what):
    """Upstream cells are exactly the inverse of the flow"""
    flow = fl()
    R, C = fd.shape
    F = fd.tolist()
    up = {(r, c): set() for r in range(R) for c in range(C)}
    for r in range(R):
        for c in range(C):
            n = ref.downstream(F, r, c)
            if n is not None:
                up[n].add((r, c))
    f0 = fd.copy()
    for cell in up:
        got = [tuple(int(x) for x in k) for k in flow.upstream_cells(fd, cell)]
        require(len(got) == len(set(got)) and set(got) == up[cell], "%s: upstream cells of %r are %r, expected %r", what, cell, got, sorted(up[cell]))
        for d in range(8):
            k = (cell[0] + ref.DELTA[d][0], cell[1] + ref.DELTA[d][1])
            require(bool(flow.is_upstream_cell(fd, cell, d)) == (k in up[cell]), "%s: cell in direction %r of %r upstream: %r", what, d, cell, flow.is_upstream_cell(fd, cell, d))
    same(fd, f0, "flow directions")
    return len(up), tuple(len(v) for v in up.values())


def all_neighbours(rec, shape, sh, n, step):
    alph = list(range(9))
    for k, fd in enumerate(spaces.grids(shape, alph, np.uint8, sh, n)):
        if k % step:
            continue
        t = TYPES[(k // step) % len(TYPES)]
        g = fd.astype(t)
        if (k // step) % 3 == 0:
            name, g = spaces.layouts(g)[(k // step // 3) % 5]
        rec.check(lambda: dict(flowdir=fd, type=t.__name__), neighbours, g, "neighbours")


def placements(shape):
    cells = list(itertools.product(range(shape[0]), range(shape[1])))
    out = [{}]
    out += [{a: v} for a in cells for v in (0, 1)]
    out += [{a: 1, b: v} for a, b in itertools.permutations(cells, 2) for v in (1, 2)]
    out += [{a: 1, b: 2, c: 1} for a, b, c in zip(cells, cells[2:], cells[4:])]
    return out


def follow(fd, lab, background):
    """Downstream path of every cell; next label; watersheds upstream of every cell"""
    flow = fl()
    from malstroem.algorithms import net
    R, C = fd.shape
    F, L = fd.tolist(), lab.tolist()
    paths = {}
    f0, l0 = fd.copy(), lab.copy()
    for r in range(R):
        for c in range(C):
            p = ref.trace(F, (r, c))
            got = [tuple(int(x) for x in k) for k in flow.trace_downstream(fd, (r, c))]
            require(got == p, "path downstream from %r is %r, expected %r", (r, c), got, p)
            paths[r, c] = p
            for bg in {None, background}:
                src, e = L[r][c], None
                i = len(p)
                for k, (a, b) in enumerate(p):
                    if L[a][b] != src and (bg is None or L[a][b] != bg):
                        e, i = L[a][b], k + 1
                        break
                lbl, geom = net.next_downstream_label(fd, lab, (r, c), bg, True)
                require(lbl == e, "next label downstream from %r (background %r) is %r, expected %r", (r, c), bg, lbl, e)
                require([tuple(int(x) for x in k) for k in geom] == p[:i], "path to the next label from %r is %r, expected %r", (r, c), geom, p[:i])
                lbl, geom = net.next_downstream_label(fd, lab, (r, c), bg)
                require(lbl == e and not geom, "next label downstream from %r without path is %r, %r", (r, c), lbl, geom)
    same(fd, f0, "flow directions")
    same(lab, l0, "labels")
    # watersheds upstream of one cell: the cells whose path passes it, up to the next label
    for cell in paths:
        w = l0.copy()
        flow.assign_watersheds_upstream(fd, w, cell, background)
        e = l0.copy()
        for k, p in paths.items():
            if cell in p:
                q = p[:p.index(cell) + 1]
                e[k] = next((L[a][b] for a, b in q if L[a][b] != background), background)
        if not np.array_equal(w, e):
            same(w, e, "watersheds upstream of %r" % (cell,))
    return R * C * 6, tuple(sorted(len(p) for p in paths.values()))


def tracing(rec, shape, edge, sh, n, step, lstep):
    P = placements(shape)
    k = 0
    for fds, nx in spaces.forests(shape, spaces.dir_alphabet(shape, edge), sh, n):
        for fd in fds:
            k += 1
            if k % step:
                continue
            for j in range((k // step) % lstep, len(P), lstep):
                bg = (0, 9, -1)[(k + j) % 3]
                lab = np.full(shape, bg, np.int32)
                for c, v in P[j].items():
                    lab[c] = v
                native = (k + j) % 2 == 0      # which takes uint8 only
                t = np.uint8 if native else TYPES[(k + j) // 2 % len(TYPES)]
                use(native)
                rec.check(lambda: dict(flowdir=fd, labels=lab, background=bg, type=t.__name__, native=native), follow, fd.astype(t), lab, bg)


def increments(rec, shape, edge, sh, n, step, most):
    """Accumulated flow traced from the leaves one after another, in all orders: what is there is right after every step"""
    flow = fl()
    k = 0
    for fds, nx in spaces.forests(shape, spaces.dir_alphabet(shape, edge), sh, n):
        for fd in fds:
            k += 1
            if k % step:
                continue
            F = fd.tolist()
            e = ref.accum(F)
            inner = set()
            for r in range(shape[0]):
                for c in range(shape[1]):
                    x = ref.downstream(F, r, c)
                    if x is not None:
                        inner.add(x)
            leaves = [(r, c) for r in range(shape[0]) for c in range(shape[1]) if (r, c) not in inner]
            use(k // step % 2 == 0)

            def one(order):
                a = np.zeros(shape)
                for l in order:
                    flow.trace_accumulated_flow(fd, a, l)
                    wrong = (a != 0) & (a != e)
                    require(not wrong.any(), "accumulated flow is %r, expected %r", a.tolist(), e.tolist())
                require((a == e).all(), "accumulated flow is %r after all leaves, expected %r", a.tolist(), e.tolist())
                return len(order), (order, tuple(e.ravel()))
            if len(leaves) <= most:
                O = itertools.permutations(leaves)
            else:
                O = [leaves, leaves[::-1], leaves[1::2] + leaves[::2]] + [leaves[i:] + leaves[:i] for i in range(1, len(leaves))]
            for order in O:
                rec.check(lambda: dict(flowdir=fd, leaves=order), one, tuple(order))


def long(rec):
    """Paths over more cells than the recursion limit"""
    flow = fl()
    for R, C in ((3, 3000), (60, 70), (5, 40), (501, 640)):
        fd = spaces.snake(R, C)
        pos = spaces.snake_positions(R, C)

        def one():
            start = tuple(int(x) for x in np.argwhere(pos == pos.max())[0])
            p = ref.trace(fd.tolist(), start)
            got = [tuple(int(x) for x in k) for k in flow.trace_downstream(fd, start)]
            require(got == p, "path of %d cells instead of %d", len(got), len(p))
            lab = np.zeros((R, C), np.int32)
            lab[p[-1]] = 5
            end = p[-1]
            w = lab.copy()
            flow.assign_watersheds_upstream(fd, w, end, 0)
            e = np.zeros((R, C), np.int32)
            for c in p:
                e[c] = 5
            same(w, e, "watershed of the end of the path")
            return len(p)
        rec.check(dict(snake=(R, C)), one)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("geometry", geometry)
    J.add("neighbours2x2", all_neighbours, (2, 2), SH, NS, 1)
    J.add("neighbours2x3", all_neighbours, (2, 3), SH, NS, 1 if T else 11, n=8)
    J.add("neighbours3x2", all_neighbours, (3, 2), SH, NS, 1 if T else 11, n=8)
    J.add("neighbours1x5", all_neighbours, (1, 5), SH, NS, 1, n=2)
    J.add("neighbours5x1", all_neighbours, (5, 1), SH, NS, 1, n=2)
    J.add("tracing2x2", tracing, (2, 2), "all", SH, NS, 1, 5, n=2)
    J.add("tracing2x3", tracing, (2, 3), "one", SH, NS, 1, 31 if T else 97, n=8)
    J.add("tracing3x2", tracing, (3, 2), "one", SH, NS, 1, 31 if T else 97, n=8)
    J.add("tracing4x4", tracing, (4, 4), "out", SH, NS, 1, 101 if T else 499, n=8)
    J.add("increments2x2", increments, (2, 2), "all", SH, NS, 1, 4, n=2)
    J.add("increments2x3", increments, (2, 3), "one", SH, NS, 1 if T else 7, 6 if T else 5, n=8)
    J.add("increments3x3", increments, (3, 3), "out", SH, NS, 1, 5, n=2)
    J.add("increments4x4", increments, (4, 4), "out", SH, NS, 1 if T else 3, 6 if T else 5, n=8)
    J.add("long", long)
    return J
