"""C18: native speedups are transparent and can be toggled at any time."""
import itertools
import json
import os
import subprocess
import sys
import types
import numpy as np
from .. import ref, spaces, boot
from ..core import require, same, Problem
from ..util import Jobs, SH, NS

BOUNDS = ("every accelerated operation, native against Python, on all small rasters of bounded spaces and in all number types and layouts both accept (acceptance not depending on the layout); all sequences of up to 7 (9) enable and "
          "disable calls, and all sequences of up to 4 (5) of enable, disable and eight operations, each compared with fresh processes with and without the native modules")
ASSUMPTIONS = ["where two directions are equally steep (within rounding) either may be picked"]


# ---------------------------------------------------------------------------------------------- operations
def op_fill(d):
    from malstroem.algorithms import fill
    return [fill.fill_terrain(d["dem"])]


def op_noflat(d):
    from malstroem.algorithms import fill
    return [fill.fill_terrain_no_flats(d["dem"], d["short"], d["diag"])]


def op_flow(d):
    from malstroem.algorithms import flow
    return [flow.terrain_flowdirection(d["surface"], edges_flow_outward=d.get("out", True))]


def op_accum(d):
    from malstroem.algorithms import flow
    return [flow.accumulated_flow(d["flowdir"])]


def op_wshed(d):
    from malstroem.algorithms import flow
    lab = d["labels"]
    keep = lab.copy()
    flow.watersheds_from_labels(d["flowdir"], lab, d.get("unassigned", 0))
    out = lab.copy()
    lab[...] = keep
    return [out]


def op_stats(d):
    from malstroem.algorithms import label
    s = label.label_stats(d["values"], d["labels"])
    return [s["min"], s["max"], s["sum"], s["count"]]


def op_minindex(d):
    from malstroem.algorithms import label
    s = label.label_min_index(d["values"], d["labels"])
    return [s["value"], s["row"], s["col"]]


def op_data(d):
    from malstroem.algorithms import label
    s = label.label_data(d["values"], d["labels"], background=d.get("background", 0))
    return [np.array([len(x) for x in s])] + [np.asarray(x, np.float64) for x in s]


def op_hyps(d):
    from malstroem import hyps
    out = []
    for i, h in hyps.bluespot_hypsometry_stats(d["labels"], d["values"], 0.5):
        out.append(np.array([i, h.zmin, h.zmax] + list(h.zhistogram.bins) + list(h.zhistogram.counts), np.float64))
    return out


OPS = dict(fill=op_fill, noflat=op_noflat, flow=op_flow, accum=op_accum, wshed=op_wshed, stats=op_stats, minindex=op_minindex, data=op_data)
ALL = dict(OPS, hyps=op_hyps)


def equal(op, a, b, d, what):
    require(len(a) == len(b), "%s: %d results, expected %d", what, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        if op == "flow":
            require(x.shape == y.shape, "%s: shape %r, expected %r", what, x.shape, y.shape)
            for r, c in np.argwhere(x != y):
                ok = ref.steepest(d["surface"], int(r), int(c))
                require(int(x[r, c]) in ok and int(y[r, c]) in ok, "%s: directions %d and %d at %r, steepest are %r", what, x[r, c], y[r, c], (int(r), int(c)), sorted(ok))
        elif op == "stats" and i == 2:
            v = float(np.abs(np.asarray(d["values"], np.float64)).sum())
            require(x.shape == y.shape and (np.abs(x - y) <= 1e-9 * v).all(), "%s: sums %r, expected %r", what, x[:9].tolist(), y[:9].tolist())
        else:
            same(x, y, "%s, result %d" % (what, i))


def dataset(k):
    """A consistent set of inputs"""
    shapes = [(6, 7), (12, 5), (9, 9), (25, 31)]
    R, C = shapes[k % 4]
    dem = (spaces.texture(R, C, 3 + k, 6) * 0.25 - 1).astype(np.float32)
    surface = ref.fill(dem.astype(np.float64), 1e-6, 1.5e-6)
    fd = np.full((R, C), 8, np.uint8)
    for r in range(R):
        for c in range(C):
            fd[r, c] = ref.edge_code(r, c, R, C) if ref.is_edge(r, c, R, C) else min(ref.steepest(surface, r, c) or {8})
    lab = (spaces.texture(R, C, 7 + k, 5)).astype(np.int32)
    return dict(dem=dem, short=1e-6, diag=1.5e-6, surface=surface, flowdir=fd, labels=lab, values=dem)


# ---------------------------------------------------------------------------------------------- namespaces
def identity(x):
    """What a function is, independent of the process"""
    if isinstance(x, types.FunctionType):
        return ["python", x.__module__, x.__qualname__, x.__code__.co_firstlineno]
    if callable(x) and not isinstance(x, type):
        return [type(x).__name__, getattr(x, "__module__", None), getattr(x, "__qualname__", getattr(x, "__name__", None))]
    return None


def namespace():
    from malstroem.algorithms import fill, flow, label
    out = {}
    for m in (fill, flow, label):
        for k in sorted(vars(m)):
            v = identity(getattr(m, k))
            if v:
                out[m.__name__ + "." + k] = v
    return out


CHILD = """
import sys, json, pickle
sys.path.insert(0, %(verif)r)
from mc import boot
if %(block)r:
    for m in ("_fill", "_flow", "_label"):
        sys.modules["malstroem.algorithms.speedups." + m] = None
boot.boot()
from malstroem.algorithms import speedups
from mc.props import c18
out = dict(enabled=speedups.enabled, available=speedups.available, namespace=c18.namespace())
out["results"] = {(k, op): f(c18.dataset(k)) for k in range(4) for op, f in c18.ALL.items()}
with open(%(path)r, "wb") as f:
    pickle.dump(out, f)
"""


def fresh(block):
    """State and results of a new process, with the native modules blocked or not"""
    import pickle
    import tempfile
    from .. import core
    fd, path = tempfile.mkstemp(dir=core.SCRATCH)
    os.close(fd)
    r = subprocess.run([sys.executable, "-c", CHILD % dict(verif=boot.VERIF, block=block, path=path)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if r.returncode:
        raise Problem("fresh process (native modules %s) failed: %s" % ("missing" if block else "present", r.stdout[-600:].decode("utf8", "replace")))
    with open(path, "rb") as f:
        out = pickle.load(f)
    os.unlink(path)
    return out


_FRESH = {}


def baseline():
    if not _FRESH:
        _FRESH[True], _FRESH[False] = fresh(False), fresh(True)
    return _FRESH


def start():
    b = baseline()
    require(b[True]["available"] and b[True]["enabled"] is True, "speedups are not on in a fresh process")
    require(not b[False]["available"] and not b[False]["enabled"], "without native modules a fresh process reports available %r, enabled %r", b[False]["available"], b[False]["enabled"])
    for k in b[True]["results"]:
        equal(k[1], b[True]["results"][k], b[False]["results"][k], dataset(k[0]), "%s in fresh processes with and without native modules" % k[1])
    return len(b[True]["results"])


def toggle(seq, k, initial):
    """Apply E, D and operations; check the state after each step"""
    from malstroem.algorithms import speedups
    (speedups.enable if initial else speedups.disable)()
    now = initial
    b = baseline()
    n = 0
    d = dataset(k)
    for step in seq:
        if step in "ED":
            (speedups.enable if step == "E" else speedups.disable)()
            now = step == "E"
        else:
            op = OPNAMES[int(step)]
            equal(op, ALL[op](d), b[now]["results"][(k, op)], d, "%s after %s" % (op, seq))
        require(speedups.enabled is now or (speedups.enabled == now and isinstance(speedups.enabled, (bool, np.bool_))), "after %s speedups.enabled is %r", seq, speedups.enabled)
        n += 1
    ns, want = namespace(), b[now]["namespace"]
    for name in want:
        require(ns.get(name) == want[name], "after %s (started %s) %s is %r, in a fresh process %r", seq, "on" if initial else "off", name, ns.get(name), want[name])
    return n, (seq, now)


OPNAMES = list(ALL)


def sequences(rec, length, alphabet, sh, n, check_ops):
    k = 0
    rec.check(dict(start="fresh processes"), start)
    for m in range(0, length + 1):
        for seq in itertools.product(alphabet, repeat=m):
            if check_ops and not (set(seq) - set("ED")):
                continue
            for initial in (True, False):
                k += 1
                if k % n != sh:
                    continue
                s = "".join(seq)
                rec.check(dict(sequence=s, initially=initial), toggle, s, k % 4 if not check_ops else (k // n) % 3, initial)
                if not check_ops and m == length:
                    full = s + "".join(str(i) for i in range(len(OPNAMES)))
                    rec.check(dict(sequence=full, initially=initial), toggle, full, k % 3, initial)


# ---------------------------------------------------------------------------------------------- equivalence
def either(op, d, count, rejected=None):
    """Native and Python on the same input. Rejected by one: not judged"""
    from malstroem.algorithms import speedups
    res = {}
    before = {k: v.copy() for k, v in d.items() if isinstance(v, np.ndarray)}
    for on in (True, False):
        (speedups.enable if on else speedups.disable)()
        try:
            res[on] = OPS[op](d) if op != "hyps" else op_hyps(d)
        except (TypeError, ValueError, OverflowError):
            res[on] = None
        for k, v in before.items():
            same(d[k], v, "input %s of %s (native %s)" % (k, op, on))
    speedups.enable()
    if rejected is not None:
        rejected.update((on, res[on] is None) for on in res)
    if res[True] is None or res[False] is None:
        count["rejected"] += 1
        return 1, None
    count["accepted"] += 1
    equal(op, res[True], res[False], d, "%s native against Python" % op)
    return 2, (op, tuple(np.asarray(x).tobytes() for x in res[True]) if op != "data" else None)


def exhaustive(rec, kind, sh, n):
    from collections import Counter
    cnt = Counter()
    k = 0
    if kind == "dem":
        gen = (("fill", dict(dem=g)) for g in spaces.grids((3, 3), [[0, 1]] * 4 + [[-1, 0, 0.5, 2]] + [[0, 1]] * 4, np.float32))
        gen2 = (("noflat", dict(dem=g, short=0.01, diag=0.015)) for g in spaces.grids((3, 4), [[0, 1]] * 5 + [[-1, 0, 1]] * 2 + [[0, 1]] * 5, np.float32))
        both = itertools.chain(gen, gen2)
    elif kind == "basin":
        both = itertools.chain.from_iterable(((("fill", dict(dem=g)), ("noflat", dict(dem=g, short=0.01, diag=0.015))) for g in spaces.basins((5, 5), [0, 1], 2, spaces.single_outlets((5, 5), [0.5])[:6], np.float32)))
    elif kind == "flow":
        both = (("flow", dict(surface=g, out=bool(g[0, 0]))) for g in spaces.grids((3, 3), [0.0, 1.0, 1.7], np.float64))
    elif kind == "dirs":
        def dirs():
            for fd, nx in spaces.forests((2, 3), spaces.dir_alphabet((2, 3), "one"), sh, n):
                for i in range(len(fd)):
                    f = np.ascontiguousarray(fd[i])
                    yield "accum", dict(flowdir=f)
                    yield "wshed", dict(flowdir=f, labels=np.array([[0, 1, 0], [2, 0, 0]], (np.int32, np.int64, np.uint8)[i % 3]))
        for op, d in dirs():
            k += 1
            if k % 5:
                continue
            rec.check(lambda: dict(op=op, **d), either, op, d, cnt)
        require(cnt["accepted"] > 50 and not cnt["rejected"], "%r", dict(cnt))
        return
    elif kind == "labels":
        def labs():
            for lab in spaces.grids((2, 2), [0, 1, 2], np.int32):
                for v in spaces.grids((2, 2), [-1.5, 0.25, 0.5], np.float64):
                    j = int(lab.sum() * 5 + v.sum() * 4)
                    w = v.astype((np.float64, np.float32)[j % 2])
                    for op in ("stats", "minindex", "data", "hyps"):
                        if op == "hyps" and set(range(1, int(lab.max()) + 1)) - set(lab.ravel().tolist()):
                            continue  # needs a cell for every ID
                        yield op, dict(values=w, labels=lab, background=j % 2 if op == "data" and lab.max() else 0)
        both = labs()
    for op, d in both:
        k += 1
        if k % n != sh:
            continue
        rec.check(lambda: dict(op=op, **d), either, op, d, cnt)
    require(cnt["accepted"] > 50 and not cnt["rejected"], "the operations reject their own number types: %r", dict(cnt))


NUM = ("float64", "float32", "int32", "int16", "uint8", "uint16", "int64", "uint32", "int8", "uint64")


def layout_free(op, d, cnt, ok, types):
    """Whether an implementation accepts an input depends on the number types, not on the memory layout (the first layout is the plain one)"""
    rej = {}
    r = either(op, d, cnt, rej)
    for on in rej:
        first = ok.setdefault((types, on), rej[on])
        require(rej[on] == first, "%s %s types %r in this memory layout, but not as plain arrays", ("native" if on else "Python") + " " + op, "rejects" if rej[on] else "accepts", types)
    return r


def types_(rec, op, k):
    """Each input array in every number type and layout"""
    from collections import Counter
    cnt = Counter()
    base = dataset(k % 4)
    fine = k >= 4   # values which need all digits of their type
    keys = dict(fill=["dem"], noflat=["dem"], flow=["surface"], accum=["flowdir"], wshed=["flowdir", "labels"], stats=["values", "labels"], minindex=["values", "labels"],
                data=["values", "labels"])[op]
    if op in ("accum", "wshed"):
        base["flowdir"] = base["flowdir"].copy()
    variants = []
    for key in keys:
        v = []
        for t in NUM:
            if key == "labels" and not t.startswith(("int", "uint")):
                continue
            a = base[key]
            if t.startswith("u") and a.min() < 0:
                a = a - a.min()
            if fine and key == "values":
                if t in ("int8", "uint8", "int16", "uint16"):
                    continue
                a = a * 4 + (2 ** 53 - 101 if t == "int64" else 2 ** 31 - 120 if t in ("int32", "uint32") else 2 ** 24 - 50 if t == "float32" else 2 ** 53 - 101)
                for name, b in spaces.layouts(a.astype(np.float64).astype(t) if t != "float64" else a.astype(np.float64) / 3 * 2):
                    if name != "readonly":
                        v.append((key, t, name, b))
                continue
            for name, b in spaces.layouts((a * 8 if key in ("values", "dem", "surface") and t[0] in "iu" else a).astype(t)):
                if name == "readonly":
                    continue
                v.append((key, t, name, b))
        variants.append(v)
    ok = {}
    for combo in itertools.product(*variants):
        d = dict(base)
        for key, t, name, b in combo:
            d[key] = b
        rec.check(lambda: dict(op=op, dataset=k, inputs=[(c[0], c[1], c[2]) for c in combo]), layout_free, op, d, cnt, ok, tuple(c[1] for c in combo))
    require(cnt["accepted"] > 0, "no number type is accepted by %s", op)


def large(rec):
    from collections import Counter
    cnt = Counter()
    for R, C, m in ((120, 90, 5), (64, 200, 900)):
        dem = (spaces.texture(R, C, 3, 50) * 0.21).astype(np.float32)
        lab = (np.arange(R * C) * 7919 % (m + 1)).reshape(R, C).astype(np.int32)
        surface = (spaces.texture(R, C, 9, 10 ** 6)).astype(np.float64)
        for op, d in (("fill", dict(dem=dem)), ("noflat", dict(dem=dem, short=1e-5, diag=1.5e-5)), ("flow", dict(surface=surface)), ("stats", dict(values=dem, labels=lab)),
                      ("minindex", dict(values=dem, labels=lab)), ("data", dict(values=dem, labels=lab)), ("accum", dict(flowdir=spaces.snake(R, C))),
                      ("hyps", dict(values=dem, labels=lab))):
            rec.check(dict(op=op, shape=(R, C)), either, op, d, cnt)
    require(not cnt["rejected"], "rejected: %r", dict(cnt))


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("toggle", sequences, 9 if T else 7, "ED", SH, NS, False, n=4)
    J.add("operations", sequences, 5 if T else 4, "ED" + "".join(str(i) for i in range(len(OPNAMES)))[:9], SH, NS, True, n=32 if T else 8)
    for kind in ("dem", "basin", "flow", "labels", "dirs"):
        J.add("same-" + kind, exhaustive, kind, SH, NS, n=8 if kind == "flow" else 4)
    for op in OPS:
        for k in (0, 1):
            J.add("types-%s-%d" % (op, k), types_, op, k)
    for op in ("stats", "minindex", "data"):
        J.add("fine-%s" % op, types_, op, 4)
        J.add("fine-%s-5" % op, types_, op, 5)
    J.add("large", large)
    return J
