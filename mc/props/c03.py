"""C03: flow directions are steepest descents; flow of every DEM drains off the raster without cycles."""
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, SQRT2, pipeline
from .c01 import big_cases, MAPS

BOUNDS = ("all 3x3 surfaces with eight neighbours over five (quick) or six levels incl. diagonal and side slopes a few billionths apart, all surfaces of "
          "small shapes, outward edges forced on rasters which already hold directions, whole chains DEM -> no-flats -> directions over the DEM spaces of C01, corridors and textures")
ASSUMPTIONS = ["elevations are finite", "cells are square", "slopes closer than 1e-9 relative count as equally steep"]
F4, F8 = np.float32, np.float64
STEP = [(d, a, b, SQRT2 if a and b else 1.0) for d, (a, b) in enumerate(ref.DELTA)]


def check_dirs(z, fd, outward):
    R, C = z.shape
    require(fd.shape == z.shape and fd.dtype == np.uint8, "flow direction array %r %s", fd.shape, fd.dtype)
    zl, fl = z.tolist(), fd.tolist()
    for r in range(R):
        for c in range(C):
            got = fl[r][c]
            if r == 0 or c == 0 or r == R - 1 or c == C - 1:
                e = ref.edge_code(r, c, R, C) if outward and R > 1 and C > 1 else ref.NODIR
                require(got == e, "edge cell (%d, %d) has direction %r, expected %r", r, c, got, e)
                continue
            h = zl[r][c]
            top, mine = 0.0, 0.0
            for d, a, b, w in STEP:
                dz = h - zl[r + a][c + b]
                if dz > 0:
                    s = dz / w
                    if s > top:
                        top = s
                    if d == got:
                        mine = s
            if top == 0.0:
                require(got == ref.NODIR, "cell (%d, %d) has no lower neighbour but direction %r", r, c, got)
            else:
                require(mine >= top * (1 - 1e-9) - 1.5e-323, "cell (%d, %d) flows in direction %r with slope %r, steepest slope is %r", r, c, got, mine, top)


def evaluate(z, outward=True):
    from malstroem.algorithms import flow
    before = z.copy()
    fd = flow.terrain_flowdirection(z, edges_flow_outward=outward)
    same(z, before, "terrain after terrain_flowdirection")
    check_dirs(z, fd, outward)
    return 1, fd.tobytes()


def chain(dem):
    p = pipeline(dem)
    fd, nf = p["flowdir"], p["noflats"]
    check_dirs(nf, fd, True)
    drains(fd)
    # water surface never climbs along the flow
    R, C = dem.shape
    lev = p["filled"].astype(F8)
    slack = dem.size * p["diag"]
    fl, ll, nl = fd.tolist(), lev.tolist(), nf.tolist()
    for r in range(R):
        for c in range(C):
            n = ref.downstream(fl, r, c)
            if n is not None:
                require(ll[n[0]][n[1]] <= ll[r][c] + slack, "flow from (%d, %d) to %r climbs from water level %r to %r", r, c, n, ll[r][c], ll[n[0]][n[1]])
                require(nl[n[0]][n[1]] < nl[r][c], "flow from (%d, %d) to %r does not descend", r, c, n)
    return 4, fd.tobytes()


def drains(fd):
    R, C = fd.shape
    fl = fd.tolist()
    ok = [[False] * C for _ in range(R)]
    for r in range(R):
        for c in range(C):
            path, x, y = [], r, c
            while not ok[x][y]:
                path.append((x, y))
                d = fl[x][y]
                require(d != ref.NODIR, "flow from (%d, %d) stops at (%d, %d)", r, c, x, y)
                a, b = ref.DELTA[d]
                nx, ny = x + a, y + b
                if not (0 <= nx < R and 0 <= ny < C):
                    break
                x, y = nx, ny
                require(len(path) <= R * C, "flow from (%d, %d) never leaves the raster", r, c)
            for p in path:
                ok[p[0]][p[1]] = True


def neighbours(rec, centre, levels, sh, n, native):
    use(native)
    alph = [levels] * 4 + [[centre]] + [levels] * 4
    for g in spaces.grids((3, 3), alph, F8, sh, n):
        rec.check(lambda: dict(terrain=g, native=native), evaluate, g)


def small(rec, shape, levels, sh, n, native):
    use(native)
    for g in spaces.grids(shape, levels, F8, sh, n):
        rec.check(lambda: dict(terrain=g, native=native), evaluate, g)
        rec.check(lambda: dict(terrain=g, native=native, outward=False), evaluate, g, False)


def values(rec, shape, native):
    use(native)
    for m in MAPS + [(0.0, 1e-5, 2e-5), (1e6, 1e6 + 2 ** -20, 1e6 + 2 ** -19)]:
        if not np.isfinite(m).all():
            continue
        for g in spaces.basins(shape, m, m[2], spaces.single_outlets(shape, m[:2]), F8):
            rec.check(lambda: dict(terrain=g, native=native), evaluate, g)
            rec.check(lambda: dict(dem=g, native=native), chain, g.astype(F4))


def layout(rec, native):
    use(native)
    for g in spaces.basins((4, 4), (0, 1, 2), 2, spaces.single_outlets((4, 4), (0, 1)), F8):
        for name, a in spaces.layouts(g):
            if name != "readonly":
                rec.check(lambda: dict(terrain=g, layout=name, native=native), evaluate, a)


def basin(rec, shape, levels, wall, outl, sh, n, native=True):
    use(native)
    for g in spaces.basins(shape, levels, wall, outl, F4, sh, n):
        rec.check(lambda: dict(dem=g, native=native), chain, g)


def grid(rec, shape, levels, sh, n, native=True):
    use(native)
    for g in spaces.grids(shape, levels, F4, sh, n):
        rec.check(lambda: dict(dem=g, native=native), chain, g)


def big(rec, name, a, native):
    use(native)
    for k, s in enumerate(spaces.symmetries(a.astype(F4))):
        if a.size > 20000 and k not in (0, 3):
            continue
        rec.check(dict(dem=name, symmetry=k, native=native), chain, np.ascontiguousarray(s))


def redirect(fd):
    from malstroem.algorithms import flow
    a = fd.copy()
    flow.set_edges_flow_outward(a)
    R, C = fd.shape
    for r in range(R):
        for c in range(C):
            e = fd[r, c] if 0 < r < R - 1 and 0 < c < C - 1 else ref.edge_code(r, c, R, C)
            require(a[r, c] == e, "cell (%d, %d) has direction %r after set_edges_flow_outward, expected %r", r, c, int(a[r, c]), int(e))
    return 1, a.tobytes()


def edges(rec):
    """set_edges_flow_outward on rasters which already hold directions."""
    for shape in [(R, C) for R in range(2, 6) for C in range(2, 6)]:
        for d in range(9):
            g = np.full(shape, d, np.uint8)
            rec.check(lambda: dict(flowdir=g), redirect, g)
            g = ((np.arange(g.size) * (d + 1)) % 9).astype(np.uint8).reshape(shape)
            rec.check(lambda: dict(flowdir=g), redirect, g)
    for g in spaces.grids((2, 2), list(range(9)), np.uint8):
        rec.check(lambda: dict(flowdir=g), redirect, g)
    for g in spaces.grids((2, 3), [0, 2, 5, 8], np.uint8):
        rec.check(lambda: dict(flowdir=g), redirect, g)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("edges", edges)
    for nat in (True, False):
        t = "native" if nat else "python"
        J.add("neighbours5-" + t, neighbours, 10.0, [10.0, 11.0, 9.0, 10 - 1.4, 10 - 1.42], SH, NS, nat, n=8)
        J.add("neighbours4-" + t, neighbours, 10.0, [9.0, 10 - SQRT2, 8.0, -100.0], SH, NS, nat, n=4)
        # a diagonal slope larger or smaller than the side slope by a few billionths
        J.add("neighbours-ties-" + t, neighbours, 10.0, [10.0, 9.0, 10 - SQRT2 * (1 + 4e-9), 10 - SQRT2 * (1 - 4e-9)], SH, NS, nat, n=4)
        for shape in ((2, 2), (2, 3), (3, 2)):
            J.add("all{0,1,2}%dx%d-%s" % (shape + (t,)), small, shape, [0, 1, 2], SH, NS, nat)
        for shape in ((3, 4), (4, 3)):
            J.add("all{0,2}%dx%d-%s" % (shape + (t,)), small, shape, [0, 2], SH, NS, nat, n=2)
        J.add("values-" + t, values, (4, 4), nat)
        J.add("values35-" + t, values, (3, 5), nat)
        J.add("layouts-" + t, layout, nat)
        J.add("basin4x5-" + t, basin, (4, 5), [0, 1, 2], 2, spaces.single_outlets((4, 5), [0, 1]), SH, NS, nat, n=4)
        for name, a in big_cases():
            if a.size > (250000 if nat else 4000):
                continue
            J.add("big-%s-%s" % (name, t), big, name, a, nat)
    J.add("dem{0,1}4x4", grid, (4, 4), [0, 1], SH, NS, n=8)
    J.add("dem{0,1}3x5", grid, (3, 5), [0, 1], SH, NS, n=4)
    J.add("dem{0,1,2}3x3", grid, (3, 3), [0, 1, 2], SH, NS, n=4)
    J.add("basin5x5", basin, (5, 5), [0, 2], 3, spaces.single_outlets((5, 5), [0, 1]) + spaces.pair_outlets((5, 5), [0, 1]), SH, NS, n=8)
    J.add("basin6x4", basin, (6, 4), [0, 1, 3], 3, spaces.single_outlets((6, 4), [2]), SH, NS, n=8)
    if T:
        J.add("neighbours6", neighbours, 10.0, [10.0, 11.0, 9.0, 10 - 1.4, 10 - 1.42, 10 - SQRT2], SH, NS, True, n=32)
        J.add("dem{0,1,2}3x4", grid, (3, 4), [0, 1, 2], SH, NS, n=32)
        J.add("dem{0,1}4x5", grid, (4, 5), [0, 1], SH, NS, n=32)
        J.add("basin5x5x3", basin, (5, 5), [0, 1, 2], 3, spaces.single_outlets((5, 5), [0, 1]), SH, NS, n=32)
    return J
