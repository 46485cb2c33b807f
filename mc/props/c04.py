"""C04: accumulated flow counts exactly the upstream cells."""
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, pipeline

BOUNDS = ("all acyclic direction rasters of 2x2 (nine codes per cell), of 2x3, 3x2, 2x4 up to the choice of direction off the raster, "
          "4x4 and 4x5 with outward edges and all interiors, 3x3 with restricted edges (quick) or all (thorough); "
          "paths of up to 17 million cells and fans of 16.8 million cells; five memory layouts")
ASSUMPTIONS = ["flow directions are acyclic, codes 0..8 in uint8", "natively the array must be writable (Cython memoryviews)"]


def evaluate(fd, expect):
    from malstroem.algorithms import flow
    before = fd.copy()
    a = flow.accumulated_flow(fd)
    if not np.array_equal(fd, before):
        raise Problem("flow directions were modified")
    if not np.array_equal(a, expect):
        same(a, expect, "accumulated flow")
    return 1, expect.tobytes() if expect.size < 100 else None


def forests(rec, shape, alph, sh, n, native):
    use(native)
    for fds, nx in spaces.forests(shape, alph, sh, n):
        acc = ref.batch_accum(nx).reshape((-1,) + shape)
        for fd, e in zip(fds, acc):
            rec.check(lambda: dict(flowdir=fd, native=native), evaluate, fd, e)


def narrow(shape):
    """3x3 forests with three choices per edge cell"""
    alph = spaces.dir_alphabet(shape, "one")
    out = []
    for i, a in enumerate(alph):
        r, c = divmod(i, shape[1])
        if ref.is_edge(r, c, *shape):
            inside = [d for d in a if d != 8 and 0 <= r + ref.DELTA[d][0] < shape[0] and 0 <= c + ref.DELTA[d][1] < shape[1]]
            off = [d for d in a if d not in inside and d != 8]
            a = [inside[len(inside) // 2], off[0], 8 if (r + c) % 2 else inside[0]]
        out.append(a)
    return out


def layout(rec, native):
    use(native)
    for fds, nx in spaces.forests((4, 4), spaces.dir_alphabet((4, 4), "out")):
        acc = ref.batch_accum(nx).reshape((-1, 4, 4))
        for fd, e in list(zip(fds, acc))[::5]:
            for name, a in spaces.layouts(fd):
                if name == "readonly" and native:
                    continue
                rec.check(lambda: dict(flowdir=fd, layout=name, native=native), evaluate, a, e)


def big(rec, native):
    use(native)
    sizes = [(2, 2), (3, 7), (7, 3), (40, 30), (31, 64)] + ([(4105, 4100), (300, 3), (3, 3000)] if native else [])
    for R, C in sizes:
        fd = spaces.snake(R, C)
        e = R * C - spaces.snake_positions(R, C)
        rec.check(dict(flowdir="snake", shape=(R, C), native=native), evaluate, fd, e)
        if R * C < 2000:
            fd2 = spaces.snake(R, C, False)
            rec.check(dict(flowdir="snake reversed", shape=(R, C), native=native), evaluate, fd2, np.ascontiguousarray(e[::-1, ::-1]))
            # stops in a cell without direction
            fd3 = fd.copy()
            fd3[R // 2, C // 2] = 8
            e3 = ref.accum(fd3)
            rec.check(dict(flowdir="snake with stop", shape=(R, C), native=native), evaluate, fd3, e3)
        if R * C > 10 ** 6:
            # rows flow right (resolved from the left), last column flows down
            fd4 = np.full((R, C), 2, np.uint8)
            fd4[:, C - 1] = 4
            e4 = np.tile(np.arange(1, C + 1), (R, 1))
            e4[:, C - 1] = C * np.arange(1, R + 1)
            rec.check(dict(flowdir="comb", shape=(R, C), native=native), evaluate_comb, fd4, e4)


def thin(rec, native, n):
    """Rasters with more rows (columns) than 16 bits can count; the middle line flows along its whole length."""
    use(native)
    fd = np.full((3, n), 6, np.uint8)     # resolved from the upstream end, cost stays linear
    fd[1] = 2
    fd[0], fd[2] = 4, 0                   # outer rows flow into the line
    e = np.ones((3, n))
    e[1] = 3 * np.arange(1, n + 1)
    tr = np.ascontiguousarray(np.array([6, 5, 4, 3, 2, 1, 0, 7], np.uint8)[fd].T)
    rec.check(dict(flowdir="line", shape=fd.shape, native=native), evaluate, fd, e)
    rec.check(dict(flowdir="line", shape=tr.shape, native=native), evaluate, tr, np.ascontiguousarray(e.T))


def evaluate_comb(fd, e):
    # flows towards upper left are resolved last-to-first; mirrored so that the cost stays linear
    m = np.ascontiguousarray((fd[::-1, ::-1] + 4) % 8).astype(np.uint8)
    return evaluate(m, np.ascontiguousarray(e[::-1, ::-1]))


def terrain(rec, native, n, lv, k):
    use(native)
    p = pipeline(spaces.texture(n, n + 3, k, lv).astype(np.float32))
    rec.check(dict(texture=(n, lv, k), native=native), evaluate, p["flowdir"], ref.accum(p["flowdir"].tolist()))


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    D = spaces.dir_alphabet
    for nat in (True, False):
        t = "native" if nat else "python"
        J.add("big-" + t, big, nat)
        J.add("thin-" + t, thin, nat, 70001 if nat else 22001)
        J.add("2x2-" + t, forests, (2, 2), D((2, 2), "all"), SH, NS, nat, n=4)
        for s in ((2, 3), (3, 2)):
            J.add("%dx%d-%s" % (s + (t,)), forests, s, D(s, "one"), SH, NS, nat, n=4)
        J.add("4x4-" + t, forests, (4, 4), D((4, 4), "out"), SH, NS, nat, n=4)
        J.add("layouts-" + t, layout, nat)
        for n, lv, k in ((9, 3, 1), (30, 9, 2), (61, 100, 3)):
            J.add("terrain%d-%s" % (n, t), terrain, nat, n, lv, k)
    J.add("2x4", forests, (2, 4), D((2, 4), "one"), SH, NS, True, n=8)
    J.add("4x2", forests, (4, 2), D((4, 2), "one"), SH, NS, True, n=8)
    J.add("4x5", forests, (4, 5), D((4, 5), "out"), SH, NS, True, n=8)
    J.add("3x5", forests, (3, 5), D((3, 5), "out"), SH, NS, True, n=2)
    J.add("3x3-narrow", forests, (3, 3), narrow((3, 3)), SH, NS, True, n=4)
    J.add("3x3-narrow-python", forests, (3, 3), narrow((3, 3)), SH, NS, False, n=8)
    if T:
        J.add("3x3", forests, (3, 3), D((3, 3), "one"), SH, NS, True, n=64)
        J.add("5x4", forests, (5, 4), D((5, 4), "out"), SH, NS, False, n=64)
        J.add("2x4-python", forests, (2, 4), D((2, 4), "one"), SH, NS, False, n=32)
        J.add("2x3-all", forests, (2, 3), D((2, 3), "all"), SH, NS, True, n=16)
    return J
