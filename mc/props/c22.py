"""C22: zonal statistics are exact for every label."""
import itertools
import numpy as np
from .. import spaces
from ..core import require, same, Problem
from ..util import Jobs, SH, NS, use

BOUNDS = ("all 2x2 label rasters over 0..2 x all data rasters over 4 values, number types in rotation; all pairs of 11 data and 7 label types x layouts x numbers of labels; "
          "all 2x3 label rasters over 0..3; every background label; up to 250000 cells, 110000 labels; native and Python")
ASSUMPTIONS = ["labels are not of type uint64 (rejected with an error), not negative and not above the number of labels given", "data is finite, integers below 2^53"]
DATA = ("float64", "float32", "int32", "int16", "uint8", "uint16", "int64", "uint32", "int8", "float16", "bool")
LABEL = ("int32", "int64", "uint8", "int16", "uint16", "uint32", "int8")


def groups(data, lab, n):
    L = np.asarray(lab).astype(np.int64).ravel()
    d = np.asarray(data).astype(np.float64).ravel()
    order = np.argsort(L, kind="stable")
    cut = np.searchsorted(L[order], np.arange(n + 2))
    return [d[order[cut[i]:cut[i + 1]]] for i in range(n + 1)]


def stats(data, lab, g, nl):
    from malstroem.algorithms import label
    s = label.label_stats(data, lab) if nl is None else label.label_stats(data, lab, nl)
    require(len(s) == len(g), "label_stats: %d records, expected %d", len(s), len(g))
    for i, v in enumerate(g):
        r = s[i]
        require(r["count"] == len(v), "label_stats: count of label %d is %r, expected %d", i, r["count"].item(), len(v))
        if len(v):
            require(r["min"] == v.min() and r["max"] == v.max(), "label_stats: min, max of label %d are %r, %r, expected %r, %r", i, r["min"].item(), r["max"].item(), v.min(), v.max())
        tol = 1e-9 * float(np.abs(v).sum())
        require(abs(r["sum"] - v.sum()) <= tol, "label_stats: sum of label %d is %r, expected %r", i, r["sum"].item(), v.sum())


def arg(data, lab, g, nl, which):
    from malstroem.algorithms import label
    f = getattr(label, "label_%s_index" % which)
    s = f(data, lab) if nl is None else f(data, lab, nl)
    require(len(s) == len(g), "label_%s_index: %d records, expected %d", which, len(s), len(g))
    R, C = lab.shape
    for i, v in enumerate(g):
        r, c = int(s[i]["row"]), int(s[i]["col"])
        inside = 0 <= r < R and 0 <= c < C
        if not len(v):
            require(not inside, "label_%s_index: label %d has no cells, yet cell %r is given", which, i, (r, c))
            continue
        want = v.min() if which == "min" else v.max()
        require(inside and int(lab[r, c]) == i, "label_%s_index: cell %r of label %d does not carry it", which, (r, c), i)
        require(float(data[r, c]) == want and s[i]["value"] == want, "label_%s_index: label %d has value %r at %r, expected %r", which, i, s[i]["value"].item(), (r, c), want)


def collected(data, lab, g, nl, background):
    from malstroem.algorithms import label
    kw = {} if background is None else dict(background=background)
    s = label.label_data(data, lab, **kw) if nl is None else label.label_data(data, lab, nl, **kw)
    require(len(s) == len(g), "label_data: %d lists, expected %d", len(s), len(g))
    for i, v in enumerate(g):
        want = np.sort(v) if i != (background or 0) else np.zeros(0)
        got = np.sort(np.asarray(s[i], dtype=np.float64))
        require(len(got) == len(want), "label_data: %d values for label %d, expected %d (background %r)", len(got), i, len(want), background)
        require((got == want).all(), "label_data: values of label %d are %r, expected %r", i, got[:20].tolist(), want[:20].tolist())


def mapping(lab, g, seed):
    from malstroem.algorithms import label
    n = len(g) - 1
    m = int(lab.max())
    if lab.dtype != np.uint64:
        cnt = label.label_count(lab)
        require(len(cnt) == m + 1 and all(int(cnt[i]) == len(g[i]) for i in range(m + 1)), "label_count: %r, expected %r", np.asarray(cnt)[:30].tolist(), [len(v) for v in g][:30])
    vals = [((i * 7 + seed) % 11) * 0.5 - 1 for i in range(n + 1)]
    want = np.array(vals)[np.asarray(lab).astype(np.int64)]
    same(label.set_label_to_value(lab, vals), want, "set_label_to_value")
    same(label.set_label_to_value(lab, np.array(vals, np.float32)), want.astype(np.float32), "set_label_to_value")
    keep = [(i + seed) % 3 != 0 for i in range(n + 1)]
    k2 = np.array(keep)
    k2[0] = False
    same(np.asarray(label.keep_labels(lab, list(keep))).astype(bool), k2[np.asarray(lab).astype(np.int64)], "keep_labels")
    b = seed % (n + 1)
    k3 = np.array(keep)
    k3[b] = False
    same(np.asarray(label.keep_labels(lab, list(keep), background=b)).astype(bool), k3[np.asarray(lab).astype(np.int64)], "keep_labels with background %d" % b)


def evaluate(data, lab, nls=(None,), backgrounds=(None,), seed=0):
    d0, l0 = data.copy(), lab.copy()
    n = 0
    for nl in nls:
        m = int(lab.max()) if not nl else nl
        g = groups(data, lab, m)
        stats(data, lab, g, nl)
        arg(data, lab, g, nl, "min")
        arg(data, lab, g, nl, "max")
        for b in backgrounds:
            if b is None or b <= m:
                collected(data, lab, g, nl, b)
                n += 1
        n += 3
    mapping(lab, g, seed)
    same(data, d0, "data")
    same(lab, l0, "labels")
    return n + 3, (d0.tobytes(), l0.tobytes()) if lab.size < 5 else None


def small(rec, shape, ids, vals, sh, n, native, step=1):
    use(native)
    k = 0
    for lab in spaces.grids(shape, ids, np.int32):
        for v in spaces.grids(shape, vals, np.float64):
            k += 1
            if k % n != sh or (k // n) % step:
                continue
            j = k // n
            dt, lt = DATA[j % 7] if j % 2 else DATA[j // 2 % 2], LABEL[j % 7] if j % 3 else LABEL[0]
            d = (v if dt.startswith("float") else np.abs(v * 8) % 128).astype(dt)
            L = lab.astype(lt)
            m = int(lab.max())
            nls = (None, m + 2) if j % 2 else (None, m) if m else (None,)
            rec.check(lambda: dict(data=d, labels=L, nlabels=nls, native=native), evaluate, d, L, nls, (None, j % 3), j)


def extremes(dt):
    t = np.dtype(dt)
    if t.kind == "b":
        return [False, True, True]
    if t.kind == "f":
        return [float(np.finfo(t).max) if dt != "float64" else 1e300, float(np.finfo(t).min) if dt != "float64" else -1e300, -0.1, 0.0, 0.1, 3.25]
    i = np.iinfo(t)
    return [max(i.min, -2 ** 53), min(i.max, 2 ** 53), 0, 1, i.max // 3 if t.itemsize < 8 else 77]


def pairs(rec, native, dtypes):
    use(native)
    base = np.array([[0, 1, 3, 3], [1, 2, 0, 3], [3, 3, 1, 0]])
    for dt, lt in itertools.product(dtypes, LABEL):
        ex = extremes(dt)
        for sh in range(len(ex)):
            v = np.array([ex[(i * 5 + i // 3 + sh) % len(ex)] for i in range(12)], dt).reshape(3, 4)
            for (na, d), (nb, L) in zip(spaces.layouts(v), spaces.layouts(base.astype(lt))):
                if "readonly" in (na, nb):
                    continue  # not accepted by all implementations
                for shift in (0, 1, 100):
                    M = (base + shift).astype(lt)
                    LL = L if shift == 0 else M
                    rec.check(lambda: dict(data=d, labels=LL, layout=na, native=native), evaluate, d, LL, (None, int(LL.max()) + 5), (None, 0, shift, 2), sh)
            for lname, L in spaces.layouts(base.astype(lt))[:4]:
                for dname, d in spaces.layouts(v)[:4]:
                    rec.check(lambda: dict(data=d, labels=L, layout=(dname, lname), native=native), evaluate, d, L)


def backgrounds(rec, native):
    use(native)
    for lab in spaces.grids((2, 3), [0, 1, 2, 3], np.int32):
        m = int(lab.max())
        k = int(lab[0, 0] + 4 * lab[1, 1])
        d = (np.arange(6).reshape(2, 3) * (-1) ** k * 0.25).astype((np.float64, np.float32)[k % 2])
        rec.check(lambda: dict(data=d, labels=lab, native=native), evaluate, d, lab.astype(LABEL[k % 7]), (None, m + 1), (None,) + tuple(range(m + 1)), k)


def big(rec, native, sh, n):
    use(native)
    cases = [(400, 300, 110000), (500, 500, 1), (500, 500, 255), (1, 1000, 300), (1000, 1, 7), (1, 1, 0), (200, 300, 70000)] if native else [(60, 80, 300), (1, 300, 300), (100, 1, 3), (60, 80, 70000)]
    for R, C, m in cases[sh::n]:
        for dt, lt in itertools.product(("float64", "float32", "int32", "uint8"), ("int32", "int64", "uint32", "uint8", "uint16")):
            if m > np.iinfo(lt).max or (m > 1000 and (lt, dt) not in (("int32", "float64"), ("int32", "float32"), ("uint32", "int32"))):
                continue
            lab = (np.arange(R * C) * 7919 % (m + 1)).reshape(R, C).astype(lt)
            d = (spaces.texture(R, C, 3, 100) * (0.37 if dt.startswith("float") else 1)).astype(dt)
            rec.check(dict(shape=(R, C), labels=m, types=(dt, lt), native=native), evaluate, d, lab)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for nat in (True, False):
        J.add("big-%s" % nat, big, nat, SH, NS, n=7 if nat else 4)
        for k in range(0, len(DATA), 3):
            J.add("pairs-%s-%d" % (nat, k), pairs, nat, DATA[k:k + 3])
        J.add("2x2-%s" % nat, small, (2, 2), [0, 1, 2], [-1.5, 0.0, 0.25, 2.75], SH, NS, nat, n=4)
        J.add("backgrounds-%s" % nat, backgrounds, nat)
        if T:
            J.add("2x3-%s" % nat, small, (2, 3), [0, 1, 2], [-1.5, 0.0, 2.75], SH, NS, nat, 1, n=24)
            J.add("2x2-4-%s" % nat, small, (2, 2), [0, 1, 2, 3], [-1.5, 0.0, 0.25, 2.75, 14.0], SH, NS, nat, 1, n=16)
    return J
