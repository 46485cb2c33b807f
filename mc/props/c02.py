"""C02: the no-flats fill solves f(c) = max(dem(c), min over neighbours n of f(n) + increment)."""
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, SQRT2
from .c01 import big_cases, MAPS

BOUNDS = "as C01, with the library's own increments and with fixed increment pairs (diagonal larger, equal, smaller)"
ASSUMPTIONS = ["elevations are finite float32 values (no NaN)", "increments are positive"]
F4 = np.float32
INCS = [(1.0, 1.5), (0.25, 0.25 * SQRT2), (0.125, 0.125), (1.0, 0.75)]


def evaluate(dem, inc=None, expect=None):
    from malstroem.algorithms import fill
    before = dem.copy()
    if inc is None:
        short, diag = fill.minimum_safe_short_and_diag(dem)
        m = np.float64(max(abs(float(dem.max())), abs(float(dem.min()))))
        require(short > 0 and diag > 0, "safe increments %r, %r not positive", short, diag)
        require(m + short > m and m + diag > m, "safe increments %r, %r vanish at magnitude %r", short, diag, m)
    else:
        short, diag = inc
    f = fill.fill_terrain_no_flats(dem, short=short, diag=diag)
    same(dem, before, "input DEM after fill_terrain_no_flats")
    require(f.dtype == np.float64, "no-flats dtype %s", f.dtype)
    e = ref.fill(dem, short, diag, np.float64) if expect is None else expect(short, diag)
    if not np.array_equal(f, e):
        if f.shape != e.shape or not (np.abs(f - e) <= 1e-3 * short).all():
            same(f, e, "no-flats surface (increments %r, %r)" % (short, diag))
    if inc is None:
        d = dem.astype(np.float64)
        require((f >= d).all(), "no-flats surface below DEM")
        if min(f.shape) > 2:
            low = np.full((f.shape[0] - 2, f.shape[1] - 2), np.inf)
            for a, b in ref.DELTA:
                low = np.minimum(low, f[1 + a:f.shape[0] - 1 + a, 1 + b:f.shape[1] - 1 + b])
            require((low < f[1:-1, 1:-1]).all(), "interior cell without strictly lower neighbour in the no-flats surface")
        e2 = ref.fill(dem) if dem.size < 64 else None
        if e2 is not None:
            if dem.size < 26:
                same(fill.fill_terrain_no_flats(dem), e2.astype(np.float64), "no-flats surface without increments")
            require((f >= e2).all(), "no-flats surface below the filled surface")
    return 1, e.tobytes()


def small(rec, shape, levels, inc, sh, n, native=True):
    use(native)
    for g in spaces.grids(shape, levels, F4, sh, n):
        rec.check(lambda: dict(dem=g, increments=inc, native=native), evaluate, g, inc)


def basin(rec, shape, levels, wall, outl, inc, sh, n, native=True):
    use(native)
    for g in spaces.basins(shape, levels, wall, outl, F4, sh, n):
        rec.check(lambda: dict(dem=g, increments=inc, native=native), evaluate, g, inc)


def values(rec, shape, native):
    use(native)
    for m in MAPS:
        if not np.isfinite(m).all():
            continue
        for g in spaces.basins(shape, m, m[2], spaces.single_outlets(shape, m[:2]), F4):
            rec.check(lambda: dict(dem=g, native=native), evaluate, g)


def layout(rec, shape, native):
    use(native)
    for g in spaces.basins(shape, (0, 1, 2), 2, spaces.single_outlets(shape, (0, 1)), F4):
        for name, a in spaces.layouts(g):
            rec.check(lambda: dict(dem=g, layout=name, native=native), evaluate, a)


def big(rec, name, a, native):
    use(native)
    a = a.astype(F4)
    cache = {}
    for k, s in enumerate(spaces.symmetries(a)):
        if a.size > 50000 and k not in (0, 3):
            continue
        s = np.ascontiguousarray(s)

        def expect(short, diag):
            if (short, diag) not in cache:
                cache[short, diag] = ref.fill(a, short, diag, np.float64)
            return spaces.symmetries(cache[short, diag])[k]
        rec.check(dict(dem=name, symmetry=k, native=native), evaluate, s, None, expect)
        if a.size < 20000:
            rec.check(dict(dem=name, symmetry=k, native=native, increments=INCS[0]), evaluate, s, INCS[0], expect)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for nat in (True, False):
        t = "native" if nat else "python"
        for inc in [None] + INCS:
            for shape in ((2, 3), (3, 3)):
                J.add("all{0,1,2}%dx%d-%s-%s" % (shape + (t, inc)), small, shape, [0, 1, 2], inc, SH, NS, nat, n=2)
            for shape in ((3, 4), (4, 3)):
                J.add("all{0,1}%dx%d-%s-%s" % (shape + (t, inc)), small, shape, [0, 1], inc, SH, NS, nat, n=2)
        for shape in ((4, 4), (3, 5), (5, 3)):
            J.add("values%dx%d-%s" % (shape + (t,)), values, shape, nat)
        J.add("layouts-" + t, layout, (4, 4), nat)
        J.add("basin4x5-" + t, basin, (4, 5), [0, 1, 2], 2, spaces.single_outlets((4, 5), [0, 1]), None, SH, NS, nat, n=4)
        for name, a in big_cases():
            if a.size > (250000 if nat else 4000):
                continue
            J.add("big-%s-%s" % (name, t), big, name, a, nat)
    J.add("all{0,1}4x4", small, (4, 4), [0, 1], None, SH, NS, n=8)
    J.add("all{0,1}3x5", small, (3, 5), [0, 1], None, SH, NS, n=4)
    J.add("all{0,1}5x3", small, (5, 3), [0, 1], None, SH, NS, n=4)
    for inc in [None, INCS[0], INCS[3]]:
        J.add("basin4x4x4lev-%s" % (inc,), basin, (4, 4), [0, 1, 2, 3], 3,
              spaces.single_outlets((4, 4), [0, 1, 2]) + spaces.pair_outlets((4, 4), [0, 2]), inc, SH, NS, n=4)
        J.add("basin5x4-%s" % (inc,), basin, (5, 4), [0, 1, 2], 3, spaces.single_outlets((5, 4), [0, 1]), inc, SH, NS, n=4)
    J.add("basin5x5", basin, (5, 5), [0, 2], 3, spaces.single_outlets((5, 5), [0, 1]) + spaces.pair_outlets((5, 5), [0, 1]), None, SH, NS, n=8)
    J.add("basin6x4", basin, (6, 4), [0, 1, 3], 3, spaces.single_outlets((6, 4), [2]), None, SH, NS, n=8)
    if T:
        for inc in [None] + INCS:
            J.add("all{0,1,2}3x4-%s" % (inc,), small, (3, 4), [0, 1, 2], inc, SH, NS, n=16)
            J.add("all{0,1}4x4-%s" % (inc,), small, (4, 4), [0, 1], inc, SH, NS, n=16)
            J.add("basin5x5x3-%s" % (inc,), basin, (5, 5), [0, 1, 2], 3, spaces.single_outlets((5, 5), [0, 1]), inc, SH, NS, n=32)
        J.add("all{0,1}4x5", small, (4, 5), [0, 1], None, SH, NS, n=32)
        J.add("basin6x6", basin, (6, 6), [0, 2], 3, spaces.single_outlets((6, 6), [1])[:6], None, SH, NS, n=64)
    return J
