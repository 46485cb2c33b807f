"""C05: the watershed of a cell is the first label met downstream."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, pipeline
from .c04 import narrow

BOUNDS = ("all acyclic direction rasters of 2x2, 2x3, 3x2, 4x4 (outward edges) and restricted 3x3 x all / up to two labelled cells; "
          "nine integer label types x several 'unlabelled' values; 70000 labels; paths of 70490 cells; memory layouts")
ASSUMPTIONS = ["flow directions are acyclic, codes 0..8 in uint8", "unlabelled cells whose path stops inside the raster are not judged"]


def evaluate(fd, lab, unassigned, expect, judged=None):
    from malstroem.algorithms import flow
    before = fd.copy()
    orig = lab.copy()
    flow.watersheds_from_labels(fd, lab, unassigned)
    require(np.array_equal(fd, before), "flow directions were modified")
    if np.array_equal(lab, expect):
        return 1, expect.tobytes() if expect.size < 100 else None
    kept = orig != unassigned
    bad = (lab != expect) & (kept | (True if judged is None else judged))
    if bad.any():
        r, c = [int(x) for x in np.argwhere(bad)[0]]
        raise Problem("cell (%d, %d) has label %r, expected %r (%d cells differ)" % (r, c, lab[r, c].item(), int(expect[r, c]), int(bad.sum())))
    return 1


def leaves_raster(fds, nx, shape):
    """Cells whose path leaves the raster (does not end in a cell without direction)"""
    term = ref.batch_terminal(nx)
    flat = fds.reshape(len(fds), -1)
    return (flat[np.arange(len(fds))[:, None], term] != 8).reshape((-1,) + shape)


def forests(rec, shape, alph, labelsets, dtype, unassigned, sh, n, native):
    """labelsets: list of dicts {flat cell: label}"""
    use(native)
    N = shape[0] * shape[1]
    for fds, nx in spaces.forests(shape, alph, sh, n):
        if not len(fds):
            continue
        ok = leaves_raster(fds, nx, shape)
        for ls in labelsets:
            lab = np.full(N, unassigned, dtype=dtype)
            for k, v in ls.items():
                lab[k] = v
            ws = ref.batch_watersheds(nx, lab, unassigned).reshape((-1,) + shape)
            lab2 = lab.reshape(shape)
            for fd, e, j in zip(fds, ws, ok):
                rec.check(lambda: dict(flowdir=fd, labels=lab2, unassigned=unassigned, dtype=str(np.dtype(dtype)), native=native),
                          evaluate, fd, lab2.copy(), unassigned, e, j)


def sets(cells, values, most=None):
    out = []
    for vs in itertools.product([None] + list(values), repeat=len(cells)):
        d = {c: v for c, v in zip(cells, vs) if v is not None}
        if most is None or len(d) <= most:
            out.append(d)
    return out


TYPES = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.intp]


def types(rec, native):
    use(native)
    alph = spaces.dir_alphabet((4, 4), "out")
    alph = [a if len(a) == 1 else a[::2] for a in alph]  # five directions per interior cell
    for dt in TYPES:
        ii = np.iinfo(dt)
        for un in (0, 1, 100, ii.max, ii.min if ii.min < 0 else 7, -1 if ii.min < 0 else 5):
            if native and dt == np.uint64 and un > np.iinfo(np.int64).max:
                continue
            vals = [v for v in (0, 1, 2, 127, ii.min, min(int(ii.max), 2 ** 63 - 1)) if v != un]
            for fds, nx in spaces.forests((4, 4), alph):
                ok = leaves_raster(fds, nx, (4, 4))
                for k, (a, b) in enumerate(itertools.permutations(vals, 2)):
                    lab = np.full(16, un, dtype=dt)
                    lab[(5, 6, 9, 10, 2)[k % 5]] = a
                    lab[(10, 9, 6, 5, 4)[k % 5]] = b
                    ws = ref.batch_watersheds(nx, lab, un).reshape((-1, 4, 4))
                    for i in range(k % 7, len(fds), 31):
                        rec.check(lambda: dict(flowdir=fds[i], labels=lab.reshape(4, 4), unassigned=un, dtype=str(np.dtype(dt)), native=native),
                                  evaluate, fds[i], lab.reshape(4, 4).copy(), un, ws[i], ok[i])


def layout(rec, native):
    use(native)
    for fds, nx in spaces.forests((4, 4), spaces.dir_alphabet((4, 4), "out")):
        ok = leaves_raster(fds, nx, (4, 4))
        for dt in (np.int32, np.int64, np.int16):
            lab = np.zeros(16, dtype=dt)
            lab[[5, 10]] = 1, 2
            ws = ref.batch_watersheds(nx, lab, 0).reshape((-1, 4, 4))
            for i in range(0, len(fds), 7):
                for k in range(5):
                    for fn, fd in spaces.layouts(fds[i]):
                        ln, la = spaces.layouts(lab.reshape(4, 4))[k]
                        if ln == "readonly" or (fn == "readonly" and native):
                            continue
                        rec.check(lambda: dict(flowdir=fds[i], labels=lab.reshape(4, 4), layouts=(fn, ln), native=native),
                                  evaluate, fd, la, 0, ws[i], ok[i])


def big(rec, native, sizes, types, revs=(False, True)):
    use(native)
    for R, C in sizes:
        pos = spaces.snake_positions(R, C)
        for dt in types:
            for rev in revs:
                fd = spaces.snake(R, C, not rev)
                p = pos[::-1, ::-1] if rev else pos
                # one label near the outlet, one half way
                lab = np.zeros((R, C), dt)
                lab[p == 1] = 1
                lab[p == R * C // 2] = 2
                e = np.where(p == 0, 0, np.where(p < R * C // 2, 1, 2))
                rec.check(dict(flowdir="snake", reverse=rev, shape=(R, C), dtype=str(np.dtype(dt)), native=native), evaluate, fd, lab.copy(), 0, e)
                if dt != np.int16:  # every other cell has its own label
                    lab = np.where(p % 2 == 1, p + 1, 0).astype(dt)
                    e = np.where(p % 2 == 1, p + 1, p)
                    rec.check(dict(flowdir="snake", labels="alternating", reverse=rev, shape=(R, C), dtype=str(np.dtype(dt)), native=native),
                              evaluate, fd, lab.copy(), 0, e)


def thin(rec, native, n):
    """Rasters with more rows (columns) than 16 bits can count; the middle line flows along its whole length."""
    use(native)
    fd = np.full((3, n), 2, np.uint8)
    fd[0], fd[2] = 0, 4
    lab = np.zeros((3, n), np.int32)
    lab[1, n - 3], lab[1, n // 2], lab[0, n - 1], lab[2, 7] = 1, 2, 3, 4
    e = lab.copy()
    e[1, :n // 2 + 1], e[1, n // 2 + 1:n - 2] = 2, 1
    rec.check(dict(flowdir="line", shape=fd.shape, native=native), evaluate, fd, lab.copy(), 0, e)
    # the same, transposed: directions are mirrored at the main diagonal
    tr = np.ascontiguousarray(np.array([6, 5, 4, 3, 2, 1, 0, 7], np.uint8)[fd].T)
    rec.check(dict(flowdir="line", shape=tr.shape, native=native), evaluate, tr, np.ascontiguousarray(lab.T), 0, np.ascontiguousarray(e.T))


def comb(rec, native, n):
    """A stream with n tributaries, in four orientations, with labels upstream and downstream"""
    use(native)
    fd = np.full((4, n), 4, np.uint8)
    fd[2], fd[3], fd[0] = 6, 4, 4
    lab = np.zeros((4, n), np.int32)
    lab[2, 1], lab[2, n // 2], lab[1, n - 2], lab[0, 5] = 1, 2, 3, 4
    e = np.zeros((4, n), np.int32)
    e[:3, 1:n // 2], e[:3, n // 2:] = 1, 2
    e[:2, n - 2], e[0, 5] = 3, 4
    e[:3, 0] = 0
    mirror = np.array([6, 5, 4, 3, 2, 1, 0, 7], np.uint8)
    turn = np.array([4, 3, 2, 1, 0, 7, 6, 5], np.uint8)     # upside down
    for flip in (False, True):
        f, l, x = (turn[fd][::-1], lab[::-1], e[::-1]) if flip else (fd, lab, e)
        for t in (False, True):
            g, m, y = (mirror[f].T, l.T, x.T) if t else (f, l, x)
            rec.check(dict(flowdir="comb", tributaries=n, flip=flip, transposed=t, native=native), evaluate, np.ascontiguousarray(g), np.ascontiguousarray(m), 0, np.ascontiguousarray(y))


def terrain(rec, native, n, lv, k):
    use(native)
    from malstroem.algorithms import label
    p = pipeline(spaces.texture(n, n + 3, k, lv).astype(np.float32))
    lab, m = label.connected_components(p["depths"])
    e = np.array(ref.watersheds(p["flowdir"].tolist(), lab.tolist(), 0))
    rec.check(dict(texture=(n, lv, k), native=native), evaluate, p["flowdir"], lab.copy(), 0, e)
    rec.check(dict(texture=(n, lv, k), native=native, twice=True), evaluate, p["flowdir"], e.astype(lab.dtype), 0, e)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    D = spaces.dir_alphabet
    inner = [5, 6, 9, 10]
    for rev in (False, True):
        J.add("huge-%s" % rev, big, True, [(266, 265)], [np.int32], (rev,))
    i32 = np.int32
    for nat in (True, False):
        t = "native" if nat else "python"
        for dt in (np.int32, np.int64, np.int16):
            J.add("big-%s-%s" % (t, np.dtype(dt)), big, nat, [(3, 3), (20, 30), (5, 100)] + [(2, 1200)] * nat, [dt])
        J.add("thin-" + t, thin, nat, 70001 if nat else 22001)
        J.add("comb-" + t, comb, nat, 70001 if nat else 12001)
        J.add("types-" + t, types, nat)
        J.add("layouts-" + t, layout, nat)
        J.add("2x2-" + t, forests, (2, 2), D((2, 2), "one"), sets(range(4), (1, 2)), i32, 0, SH, NS, nat, n=2)
        J.add("4x4few-" + t, forests, (4, 4), D((4, 4), "out"), [{}, {5: 1}, {10: 2, 6: 1}, {0: 1, 7: 2}, {9: 2, 14: 3}], i32, 0, SH, NS, nat, n=8)
        for n, lv, k in ((9, 3, 1), (30, 9, 2), (61, 100, 3)):
            J.add("terrain%d-%s" % (n, t), terrain, nat, n, lv, k)
    for s in ((2, 3), (3, 2)):
        J.add("%dx%d" % s, forests, s, D(s, "one"), sets(range(6), (1,)), i32, 0, SH, NS, True, n=8)
        J.add("%dx%d-python" % s, forests, s, D(s, "one"), [{}, {1: 1}, {2: 1, 3: 2}, {0: 3, 4: 1, 5: 2}], i32, 0, SH, NS, False, n=8)
    J.add("4x4", forests, (4, 4), D((4, 4), "out"), sets(inner, (1, 2)), i32, 0, SH, NS, True, n=8)
    J.add("4x4-i64", forests, (4, 4), D((4, 4), "out"), sets(inner, (0,)) , np.int64, -1, SH, NS, True, n=8)
    J.add("3x3-narrow", forests, (3, 3), narrow((3, 3)), sets(range(9), (1,), 1) + [{0: 1, 4: 2}, {1: 1, 7: 2}, {3: 2, 5: 2}], i32, 0, SH, NS, True, n=8)
    if T:
        J.add("4x4-python", forests, (4, 4), D((4, 4), "out"), sets(inner, (1, 2)), i32, 0, SH, NS, False, n=64)
        J.add("3x3-two", forests, (3, 3), narrow((3, 3)), sets(range(9), (1, 2), 2), i32, 0, SH, NS, True, n=32)
        J.add("2x3-two", forests, (2, 3), D((2, 3), "one"), sets(range(6), (1, 2)), i32, 0, SH, NS, True, n=32)
        J.add("4x5", forests, (4, 5), D((4, 5), "out"), [{6: 1}, {6: 1, 13: 2}, {7: 1, 12: 2}, {8: 1, 12: 1, 2: 3}], i32, 0, SH, NS, True, n=32)
        J.add("4x4-fallback", forests, (4, 4), D((4, 4), "out"), sets(inner, (1, 2)), np.uint16, 0, SH, NS, True, n=16)
    return J
