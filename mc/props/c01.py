"""C01: the filled surface is the lowest depressionless surface not below the DEM."""
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem

BOUNDS = ("all DEMs of the listed shapes over the listed level alphabets and outlet sets; corridors, serpentines, zigzag channels (one cell per sweep) and "
          "nested textures up to 300x300 / 6001x5; with and without native speedups; 5 memory layouts")
ASSUMPTIONS = ["elevations are finite float32 values (no NaN)", "rasters have at least two rows and two columns"]
F4 = np.float32


def evaluate(dem, expect=None):
    from malstroem.algorithms import fill
    before = dem.copy()
    f = fill.fill_terrain(dem)
    same(dem, before, "input DEM after fill_terrain")
    require(f is not dem, "fill_terrain returned its input")
    require(f.dtype == F4, "filled dtype %s", f.dtype)
    e = ref.fill(dem) if expect is None else expect
    if not np.array_equal(f, e):
        same(f, e, "filled DEM")
    return 1, e.tobytes()


def small(rec, shape, levels, sh, n, native=True):
    use(native)
    for g in spaces.grids(shape, levels, F4, sh, n):
        rec.check(lambda: dict(dem=g, native=native), evaluate, g)


def basin(rec, shape, levels, wall, outl, sh, n, native=True):
    use(native)
    for g in spaces.basins(shape, levels, wall, outl, F4, sh, n):
        rec.check(lambda: dict(dem=g, native=native), evaluate, g)


def use(native):
    from malstroem.algorithms import speedups
    require(speedups.available, "native speedups are not available")
    (speedups.enable if native else speedups.disable)()


MAPS = [(-3.4e38, 0.0, 3.4e38), (-0.1, 0.1, 0.3), (8848.86, 8848.87, 8848.88), (-11000.5, -10999.5, -0.0), (1e-40, 2e-40, 3e-40),
        (16777215.0, 16777216.0, 16777218.0), (-2.0, -1.0, 0.0), (np.inf, 5.0, 1.0)]


def values(rec, shape, native):
    use(native)
    for m in MAPS:
        for g in spaces.basins(shape, m, m[2], spaces.single_outlets(shape, m[:2]), F4):
            rec.check(lambda: dict(dem=g, native=native), evaluate, g)


def layout(rec, shape, native):
    use(native)
    for g in spaces.basins(shape, (0, 1, 2), 2, spaces.single_outlets(shape, (0, 1)), F4):
        e = ref.fill(g)
        for name, a in spaces.layouts(g):
            rec.check(lambda: dict(dem=g, layout=name, native=native), evaluate, a, e)


def big_cases():
    for n in (5, 8, 9, 16, 33, 64):
        for slope in (0.0, 0.25):
            a, path = spaces.spiral(n, 1e4, slope, 100.0)
            yield "spiral-%d-%g" % (n, slope), a
    for n, w in ((6, 5), (33, 5), (600, 5), (6001, 5), (64, 7), (65, 30), (2001, 9)):
        for slope in (0.0, 0.25):
            a, path = spaces.serpentine(n, w, 1e5, 100.0, slope)
            yield "serpentine-%dx%d-%g" % (n, w, slope), a
    for n in (16, 30, 75, 120, 300):
        yield "zigzag-%dx%d" % (n, n), spaces.zigzag(n, n)
    for R, C, lv in ((3, 2000, 7), (2000, 3, 7), (17, 19, 5), (60, 40, 50), (40, 60, 3), (300, 300, 9), (2, 500, 5), (500, 2, 5), (130, 520, 1000), (3, 70000, 5), (70000, 3, 5)):
        yield "texture-%dx%d-%d" % (R, C, lv), spaces.texture(R, C, 1, lv)


def big(rec, name, a, native):
    use(native)
    a = a.astype(F4)
    e = ref.fill(a)
    syms = spaces.symmetries(a)
    esyms = spaces.symmetries(e)
    for k, (s, x) in enumerate(zip(syms, esyms)):
        if a.size > 50000 and k not in (0, 3):
            continue
        s = np.ascontiguousarray(s)
        rec.check(dict(dem=name, symmetry=k, native=native), evaluate, s, x)
        if k == 0:  # started from a surface which is already filled nothing may change
            rec.check(dict(dem=name, refill=True, native=native), evaluate, np.ascontiguousarray(x), x)


def jobs(tier):
    out = []
    T = tier == "thorough"

    def add(name, fn, *args, n=1):
        for i in range(n):
            a = [i if x is SH else n if x is NS else x for x in args]
            out.append(("%s#%d" % (name, i), fn, a))
    for nat in (True, False):
        t = "native" if nat else "python"
        for shape in ((2, 2), (2, 3), (3, 2), (3, 3)):
            add("all{0,1,2}%dx%d-%s" % (shape + (t,)), small, shape, [0, 1, 2], SH, NS, nat, n=2)
        for shape in ((3, 4), (4, 3), (2, 5), (5, 2)):
            add("all{0,1}%dx%d-%s" % (shape + (t,)), small, shape, [0, 1], SH, NS, nat, n=2)
        for shape in ((4, 4), (3, 5), (5, 3)):
            add("values%dx%d-%s" % (shape + (t,)), values, shape, nat)
        add("layouts-" + t, layout, (4, 4), nat)
        add("basin4x5-" + t, basin, (4, 5), [0, 1, 2], 2, spaces.single_outlets((4, 5), [0, 1]), SH, NS, nat, n=4)
        for name, a in big_cases():
            if not nat and a.size > 5000:
                continue
            out.append(("big-%s-%s" % (name, t), big, (name, a, nat)))
    add("all{0,1}4x4", small, (4, 4), [0, 1], SH, NS, n=8)
    add("all{0,1}3x5", small, (3, 5), [0, 1], SH, NS, n=4)
    add("all{0,1}5x3", small, (5, 3), [0, 1], SH, NS, n=4)
    add("basin4x4x4lev", basin, (4, 4), [0, 1, 2, 3], 3, spaces.single_outlets((4, 4), [0, 1, 2]) + spaces.pair_outlets((4, 4), [0, 2]), SH, NS, n=4)
    add("basin5x5", basin, (5, 5), [0, 2], 3, spaces.single_outlets((5, 5), [0, 1]) + spaces.pair_outlets((5, 5), [0, 1]), SH, NS, n=8)
    add("basin5x4", basin, (5, 4), [0, 1, 2], 3, spaces.single_outlets((5, 4), [0, 1]), SH, NS, n=4)
    add("basin4x6", basin, (4, 6), [0, 1, 3], 3, spaces.single_outlets((4, 6), [2]), SH, NS, n=8)
    add("basin6x4", basin, (6, 4), [0, 1, 3], 3, spaces.single_outlets((6, 4), [2]), SH, NS, n=8)
    add("basin5x5x3lev", basin, (5, 5), [0, 1, 2], 3, [{(0, 2): 0}, {(2, 4): 1}, {(4, 4): 1}, {(3, 0): 0}], SH, NS, n=8)
    if T:
        add("all{0,1,2}3x4", small, (3, 4), [0, 1, 2], SH, NS, n=16)
        add("all{0,1,2}4x3", small, (4, 3), [0, 1, 2], SH, NS, n=16)
        add("all{0,1}4x5", small, (4, 5), [0, 1], SH, NS, n=32)
        add("all{0,1}5x4", small, (5, 4), [0, 1], SH, NS, n=32)
        add("basin5x5x3lev-all", basin, (5, 5), [0, 1, 2], 3, spaces.single_outlets((5, 5), [0, 1]), SH, NS, n=32)
        add("basin5x6", basin, (5, 6), [0, 2], 3, spaces.pair_outlets((5, 6), [0, 1]), SH, NS, n=32)
        add("basin4x8", basin, (4, 8), [0, 2], 3, spaces.pair_outlets((4, 8), [0, 1]), SH, NS, n=32)
        add("basin6x6", basin, (6, 6), [0, 2], 3, spaces.single_outlets((6, 6), [1]), SH, NS, n=64)
    return out


SH, NS = object(), object()
