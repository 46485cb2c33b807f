"""C06: bluespots are the 8-connected wet areas, numbered 1..n, filtered as a whole."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use, MemRaster, MemVector, Scratch, write_tif, read_tif, run_ok

BOUNDS = ("all wet/dry masks of 4x4, 3x5, 5x3, 2x6, 1x9; all depth rasters of 3x3 and 2x4 over three depths x filters x cell sizes by the bluespot tool; "
          "bspots command on files for every third 2x3 raster; all rasters of 3x3 over a negative, a zero and a positive value; depths, areas and volumes next to a threshold; the sizes, depths and volumes a filter is asked about from one to 300000 cells; masks with up to 90000 components and corridors")
ASSUMPTIONS = ["depths are not NaN", "depths and cell sizes are exactly representable, thresholds may be hit exactly"]

# (expression, predicate on (area, maxdepth, volume))
FILTERS = [
    (None, lambda a, d, v: True),
    ("area > 1", lambda a, d, v: a > 1),
    ("area >= 2", lambda a, d, v: a >= 2),
    ("maxdepth > 0.25", lambda a, d, v: d > 0.25),
    ("maxdepth<=0.25 and area<3", lambda a, d, v: d <= 0.25 and a < 3),
    ("volume > 0.5", lambda a, d, v: v > 0.5),
    ("volume < 1.25 or maxdepth == 1", lambda a, d, v: v < 1.25 or d == 1),
    ("area > 1 and (maxdepth > 0.25 or volume >= 0.75)", lambda a, d, v: a > 1 and (d > 0.25 or v >= 0.75)),
    ("area > 100", lambda a, d, v: a > 100),
    ("volume>=8 or area==4 and maxdepth!=1", lambda a, d, v: v >= 8 or (a == 4 and d != 1)),
]


def check_labels(lab, comps, shape):
    """lab must number exactly the given components 1..n"""
    lab = np.asarray(lab)
    require(lab.shape == tuple(shape), "label raster has shape %r", lab.shape)
    require(lab.dtype.kind in "iu", "labels of type %s", lab.dtype)
    L = lab.tolist()
    ids = []
    wet = 0
    for comp in comps:
        s = {L[r][c] for r, c in comp}
        require(len(s) == 1, "one bluespot carries several IDs %r", s)
        ids.append(s.pop())
        wet += len(comp)
    require(sorted(ids) == list(range(1, len(comps) + 1)), "bluespot IDs are %r, expected 1..%d", sorted(ids)[:20], len(comps))
    require(int((lab != 0).sum()) == wet, "%d cells carry an ID, expected %d", int((lab != 0).sum()), wet)


def components(data, comps=None):
    from malstroem.algorithms import label
    before = data.copy()
    lab, n = label.connected_components(data)
    same(data, before, "data after connected_components")
    comps = ref.components(data.tolist()) if comps is None else comps
    require(int(n) == len(comps), "%r components reported, expected %d", n, len(comps))
    check_labels(lab, comps, data.shape)
    return 1, np.asarray(lab).tobytes() if data.size < 100 else None


def masks(rec, shape, values, dtype, sh, n):
    for g in spaces.grids(shape, values, dtype, sh, n):
        rec.check(lambda: dict(data=g), components, g)


def layout(rec):
    for g in spaces.grids((3, 4), [0, 2], np.float32):
        comps = ref.components(g.tolist())
        for name, a in spaces.layouts(g):
            rec.check(lambda: dict(data=g, layout=name), components, a, comps)


def big(rec):
    for R, C in ((600, 600), (513, 300)):
        d = np.zeros((R, C), np.float32)
        d[::2, ::2] = 1
        rec.check(dict(mask="isolated cells", shape=(R, C)), components, d)
        d = np.zeros((R, C), np.float32)
        rr, cc = np.mgrid[0:R, 0:C]
        d[(rr + cc) % 2 == 0] = 1e-30
        rec.check(dict(mask="checkerboard", shape=(R, C)), components, d)
        d[(rr + cc) % 2 == 0] = 1
        d[:, ::7] = 0
        rec.check(dict(mask="checkerboard strips", shape=(R, C)), components, d)
    for n in (9, 33, 64, 301):
        a, path = spaces.spiral(n)
        m = np.zeros((n, n), np.float64)
        for p in path:
            m[p] = 0.5
        rec.check(dict(mask="spiral", n=n), components, m)
        rec.check(dict(mask="spiral walls", n=n), components, 1 - (m > 0).astype(np.int32))
    for k in range(4):
        t = spaces.texture(200, 170, k, 7)
        rec.check(dict(mask="texture", k=k), components, np.where(t > 3, t, 0))


def stats_of(comps, d, area):
    out = []
    for comp in comps:
        v = [float(d[p]) for p in comp]
        out.append((len(v) * area, max(v), sum(v) * area))
    return out


def expected(d, cell, pred):
    comps = ref.components(d.tolist())
    return [c for c, s in zip(comps, stats_of(comps, d, cell * cell)) if pred(*s)]


def tool(inner, cell, fx, pred, native):
    from malstroem.bluespots import BluespotTool
    from malstroem.scripts._utils import parse_filter
    d = np.zeros((inner.shape[0] + 2, inner.shape[1] + 2), np.float32)
    d[1:-1, 1:-1] = inner
    t = (5.0, cell, 0.0, 9.0, 0.0, -cell)
    lab, ws = MemRaster(), MemRaster()
    fd = np.zeros(d.shape, np.uint8)  # everything flows up
    BluespotTool(MemRaster(d, t), MemRaster(fd, t), parse_filter(fx) if fx else None, lab, MemVector(), ws,
                 input_accum=MemRaster(np.ones(d.shape), t)).process()
    check_labels(lab.out, expected(d, cell, pred), d.shape)
    return 1, (fx, lab.out.tobytes())


def filters(rec, shape, values, sh, n, native, step=1):
    use(native)
    for k, g in enumerate(spaces.grids(shape, values, np.float32, sh, n)):
        for i, (fx, pred) in enumerate(FILTERS):
            if (k + i) % step:
                continue
            cell = (1.0, 0.5, 4.0)[(k + i) % 3]
            rec.check(lambda: dict(depths=g, cell=cell, filter=fx, native=native), tool, g, cell, fx, pred, native)


def near(rec, native):
    """Areas, depths and volumes next to a threshold: the smallest difference decides."""
    use(native)
    f4 = np.float32
    for thr in ("0.05", "0.5", "1", "3.125"):
        T = float(thr)
        lo, hi = np.nextafter(f4(T), f4(0)), np.nextafter(f4(T), f4(9))
        cand = [lo, hi, f4(T), f4(T - 1e-4), f4(T + 1e-4), f4(T - 4e-4), f4(T + 4e-4), f4(T + 4e-3), f4(T - 4e-3), f4(T + 4e-2)]
        d = np.zeros((3, 2 * len(cand) + 1), f4)
        d[1, 1::2] = cand
        for cell in (1.0, 2.0, 0.4, 1.6, 10.0):
            for name in ("maxdepth", "volume", "area"):
                for op in ("<", ">", "<=", ">=", "==", "!="):
                    k = 1.0 if name == "maxdepth" else cell * cell
                    for t in ([T] if name == "maxdepth" else [float(c) * k for c in cand[:5]] if name == "volume" else [k, k * 2, k * (1 - 1e-3), k * (1 + 1e-3)]):
                        num = np.format_float_positional(t)
                        v = float(num)
                        ops = {"<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal, "==": np.equal, "!=": np.not_equal}
                        if name != "maxdepth" and op in ("==", "!=", "<=", ">="):
                            continue   # a product of two rounded numbers may be calculated in another order
                        vals = [float(x) if name == "maxdepth" else k if name == "area" else float(x) * k for x in cand]
                        if name != "maxdepth" and any(abs(x - v) <= 1e-9 * v for x in vals) :
                            # judged without the bluespots on the threshold itself
                            dd = d.copy()
                            for i, x in enumerate(vals):
                                if abs(x - v) <= 1e-9 * v:
                                    dd[1, 1 + 2 * i] = 0
                        else:
                            dd = d
                        pred = lambda a, m, w, o=ops[op], n=name, v=v: bool(o({"area": a, "maxdepth": m, "volume": w}[n], v))
                        fx = "%s %s %s" % (name, op, num)
                        rec.check(lambda: dict(depths=dd, cell=cell, filter=fx, native=native), tool, dd, cell, fx, pred, native)


def command(d, cell, fx, pred, dtype):
    with Scratch() as s:
        t = (5.0, cell, 0.0, 9.0, 0.0, -cell)
        p = write_tif(s("d.tif"), d.astype(dtype), t, nodata=-999 if dtype != "float64" else None)
        args = ["bspots", "-depths", p, "-out", s("b.tif")]
        if fx:
            args += ["-filter", fx]
        run_ok(*args)
        lab, t2, crs, nd = read_tif(s("b.tif"))
        check_labels(lab, expected(d, cell, pred), d.shape)
        same(t2, t, "geotransform")
        require(nd == 0, "nodata of the bluespot raster is %r", nd)
    return 1


def commands(rec, shape, values, sh, n, step):
    k = 0
    for g in spaces.grids(shape, values, np.float32, sh, n):
        k += 1
        fx, pred = FILTERS[k % len(FILTERS)]
        if k % step:
            continue
        cell = (1.0, 0.5, 4.0)[k % 3]
        dt = ("float32", "float64")[k % 2]
        rec.check(lambda: dict(depths=g, cell=cell, filter=fx, dtype=dt), command, g, cell, fx, pred, dt)


def many(rec):
    """Very many bluespots, every other one filtered away"""
    n = 300
    d = np.zeros((2 * n + 1, 2 * n + 1), np.float32)
    d[1::2, 1::2] = np.where(np.arange(n * n).reshape(n, n) % 3, 0.25, 1)
    for fx, pred in FILTERS[1:7]:
        rec.check(dict(depths="%d isolated cells" % (n * n), filter=fx), tool, d, 2.0, fx, pred, True)


def bars(lengths, depths, cell, native):
    """Bluespots of given sizes and depths: the filter is asked about each, with its true area, depth and volume"""
    from malstroem.bluespots import BluespotTool
    use(native)
    W = 200
    heights = [-(-n // W) for n in lengths]
    d = np.zeros((sum(heights) + len(lengths) + 1, min(W, max(lengths)) + 2), np.float32)
    r = 1
    for n, z, h in zip(lengths, depths, heights):
        d[r:r + n // W, 1:-1] = z
        if n % W:
            d[r + n // W, 1:n % W + 1] = z
        d[r, 1] = z * 2
        r += h + 1
    t = (5.0, cell, 0.0, 9.0, 0.0, -cell)
    seen = []

    def f(s):
        seen.append((float(s["area"]), float(s["max"]), float(s["volume"])))
        return len(seen) % 3 != 0
    lab, ws = MemRaster(), MemRaster()
    try:
        BluespotTool(MemRaster(d, t), MemRaster(np.full(d.shape, 2, np.uint8), t), f, lab, MemVector(), ws, input_accum=MemRaster(np.ones(d.shape), t)).process()
    finally:
        use(True)
    want = []
    for n, z in zip(lengths, depths):
        z = float(np.float32(z))
        want.append((n * cell * cell, 2 * z, (n + 1) * z * cell * cell))
    # the background may be asked about, too
    for w in want:
        require(any(all(abs(a - b) <= 1e-9 * b for a, b in zip(g, w)) for g in seen), "the filter is not asked about a bluespot with area %r, depth %r, volume %r but about %r", *w,
                sorted(seen, key=lambda g: abs(g[0] - w[0]))[:2])
    return len(want), None


def sizes(rec, native):
    long = sorted(set([9999, 10001, 300000] + [2 ** k + i for k in range(7, 19) for i in (-1, 0, 1)])) if native else [511, 1025, 2049]
    for k, cell in enumerate((1.0, 0.4, 10.0) if native else (0.4,)):
        ds = [(0.013, 0.5, 1e-4, 7.25, 123.456)[(i + k) % 5] for i in range(len(long))]
        rec.check(lambda: dict(sizes=long, depths=ds, cell=cell, native=native), bars, long, ds, cell, native)
    # all small sizes
    ls = list(range(1, 131))
    rec.check(lambda: dict(sizes="1..130", native=native), bars, ls, [0.1 * (i % 7) + 0.01 for i in ls], 1.6, native)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("4x4", masks, (4, 4), [0, 1], np.float32, SH, NS, n=4)
    J.add("3x5", masks, (3, 5), [0, 1], np.float64, SH, NS, n=2)
    J.add("5x3", masks, (5, 3), [0, 1], np.int32, SH, NS, n=2)
    J.add("2x6", masks, (2, 6), [0, 1], np.uint8, SH, NS)
    J.add("1x9", masks, (1, 9), [0, 1], np.float32, SH, NS)
    J.add("9x1", masks, (9, 1), [0, 1], np.float32, SH, NS)
    J.add("3x3values", masks, (3, 3), [0, 1e-38, 3.0], np.float32, SH, NS)
    J.add("3x3signs", masks, (3, 3), [0, -0.5, 2.0], np.float64, SH, NS)
    J.add("2x4signs", masks, (2, 4), [0, -1, 3], np.int16, SH, NS)
    J.add("layouts", layout)
    for nat in (True, False):
        J.add("near-%s" % nat, near, nat)
        J.add("sizes-%s" % nat, sizes, nat)
    J.add("big", big)
    J.add("many", many)
    for nat in (True, False):
        J.add("tool3x3-%s" % nat, filters, (3, 3), [0, 0.25, 1], SH, NS, nat, 3 if nat else 20, n=8)
        J.add("tool2x4-%s" % nat, filters, (2, 4), [0, 0.25, 1], SH, NS, nat, 1 if nat else 7, n=8)
    J.add("bspots2x3", commands, (2, 3), [0, 0.25, 1], SH, NS, 1, n=4)
    J.add("bspots3x4", commands, (3, 4), [0, 1], SH, NS, 4, n=4)
    if T:
        J.add("3x4signs", masks, (3, 4), [0, -0.5, 2.0], np.float64, SH, NS, n=16)
        J.add("4x5", masks, (4, 5), [0, 1], np.float32, SH, NS, n=32)
        J.add("3x7", masks, (3, 7), [0, 1], np.float32, SH, NS, n=32)
        J.add("tool3x3-all", filters, (3, 3), [0, 0.25, 1], SH, NS, True, 1, n=32)
        J.add("tool3x4", filters, (3, 4), [0, 0.25, 1], SH, NS, True, 10, n=64)
        J.add("tool4x4", filters, (4, 4), [0, 0.5], SH, NS, True, 1, n=32)
        J.add("bspots3x4-all", commands, (3, 4), [0, 1], SH, NS, 1, n=16)
    return J
