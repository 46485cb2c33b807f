"""C10: the final state conserves water: fill up to capacity, spill the rest downstream."""
import itertools
from ..core import require, Problem
from ..util import Jobs, SH, NS, MemVector, require_close

BOUNDS = ("all forests of up to 3 nodes x capacities x inputs x orders of adding x event sequences, all forests of 4 and 5 nodes over smaller alphabets; all histories of up to 6 (8) operations adding nodes and calculating events, earlier results looked at again after every event; "
          "chains and stars of up to 70000 nodes; network class and final state calculator")
ASSUMPTIONS = ["node ids are unique, downstream ids refer to existing nodes without cycles", "capacities and inputs are not negative"]


def forests(n):
    """parent tuples (None: root)"""
    for ps in itertools.product([None] + list(range(n)), repeat=n):
        ok = True
        for i in range(n):
            k, steps = i, 0
            while k is not None and steps <= n:
                k = ps[k]
                steps += 1
            if k is not None:
                ok = False
                break
        if ok:
            yield ps


def model(parents, caps, ins):
    """{node: (spill, volume, percent)} leaves first"""
    n = len(parents)
    todo = [0] * n
    for p in parents:
        if p is not None:
            todo[p] += 1
    total = list(ins)
    ready = [i for i in range(n) if not todo[i]]
    out = {}
    while ready:
        i = ready.pop()
        v = min(total[i], caps[i])
        s = total[i] - v
        out[i] = (s, v, None if caps[i] == 0 else 100.0 * v / caps[i])
        p = parents[i]
        if p is not None:
            total[p] += s
            todo[p] -= 1
            if not todo[p]:
                ready.append(p)
    assert len(out) == n
    return out


def compare(events, ids, expect, what, tol=1e-9):
    require(len(events) == len(ids), "%s: %d nodes reported, expected %d", what, len(events), len(ids))
    seen = set()
    back = {v: k for k, v in enumerate(ids)}
    for e in events:
        i = e["nodeid"]
        require(i in back and i not in seen, "%s: node id %r reported unexpectedly", what, i)
        seen.add(i)
        s, v, p = expect[back[i]]
        require_close(e["v"], v, "%s: volume of node %r" % (what, i), tol)
        require_close(e["spillv"], s, "%s: spill of node %r" % (what, i), tol)
        require_close(e["pctv"], p, "%s: percentage of node %r" % (what, i))


def nodes_of(parents, caps, ids, attrs):
    return [dict(nodeid=ids[i], dstrnodeid=None if p is None else ids[p], bspot_vol=caps[i], wshed_area=10.0 * i, nodetype="pourpoint" if caps[i] else "junction",
                 **{a: v[i] for a, v in attrs.items()}) for i, p in enumerate(parents)]


def evaluate(parents, caps, ins, order, ids, seq, tol=1e-9):
    from malstroem.network import Network
    ins2 = ins[1:] + ins[:1]
    attrs = dict(inputv=ins, other=ins2)
    nodes = nodes_of(parents, caps, ids, attrs)
    net = Network()
    if len(seq) > 2:   # nodes added in two portions
        net.add_nodes([nodes[i] for i in order[:1]])
        net.add_nodes([nodes[i] for i in order[1:]])
    else:
        for i in order:
            net.add_node(nodes[i])
    want = {a: model(parents, caps, v) for a, v in attrs.items()}
    for k, a in enumerate(seq):
        ev = net.rain_event(a)
        compare([dict(e) for e in ev], ids, want[a], "event %d (%s)" % (k + 1, a), tol)
        require(abs(sum(attrs[a]) - sum(e["v"] for e in ev) - sum(want[a][i][0] for i in range(len(parents)) if parents[i] is None)) < max(1000 * tol, 1e-10), "water is not conserved")
    return len(seq), tuple(want["inputv"].items())


def history(parents, caps, ins, ids, order, ops):
    """ops: 'a'/'b' rain event with the first/second volume attribute, '+' add the next node"""
    from malstroem.network import Network
    attrs = dict(inputv=ins, other=ins[1:] + ins[:1])
    nodes = nodes_of(parents, caps, ids, attrs)
    net = Network()
    done, earlier = [], []
    for op in ops:
        if op == "+":
            i = order[len(done)]
            done.append(i)
            net.add_node(dict(nodes[i]))
            continue
        a = "inputv" if op == "a" else "other"
        ev = net.rain_event(a)
        sub = [None if parents[i] is None else done.index(parents[i]) for i in done]
        want = model(sub, [caps[i] for i in done], [attrs[a][i] for i in done])
        earlier.append((ev, [ids[i] for i in done], want, op))
        for k, (e, n, w, o) in enumerate(earlier):
            compare([dict(x) for x in e], n, w, "history %s, result of event %d looked at after event %d" % (ops, k + 1, len(earlier)))
    return len(ops)


def histories(rec, n, depth, sh, nsh):
    """All interleavings of adding n nodes (downstream nodes first) and rain events"""
    caps, ins, ids = (1, 2.5, 0, 3)[:n], (4, 0.5, 3, 2)[:n], [3, 1, 40, 2][:n]
    k = 0
    for parents in forests(n):
        orders = [o for o in itertools.permutations(range(n)) if all(parents[i] is None or o.index(parents[i]) < o.index(i) for i in o)]
        for ops in itertools.product("+ab", repeat=depth):
            if ops.count("+") > n or ops[-1] == "+":
                continue
            for order in orders:
                k += 1
                if k % nsh == sh:
                    rec.check(lambda: dict(downstream=parents, order=order, operations="".join(ops)), history, parents, caps, ins, ids, order, "".join(ops))


SEQS = [("inputv",), ("inputv", "other"), ("other", "inputv", "inputv"), ("inputv", "inputv")]


def small(rec, n, caps, ins, allorders, sh, nsh, tol=1e-9):
    perms = list(itertools.permutations(range(n)))
    idsets = [list(range(n)), list(range(n))[::-1], [7, 0, 12, 3, 100][:n]]
    k = 0
    for parents in forests(n):
        for cs in itertools.product(caps, repeat=n):
            for vs in itertools.product(ins, repeat=n):
                k += 1
                if k % nsh != sh:
                    continue
                for order in (perms if allorders else (perms[(k // nsh) % len(perms)],)):
                    ids = idsets[(k // nsh) % 3]
                    seq = SEQS[(k // nsh) % 4]
                    rec.check(lambda: dict(downstream=parents, capacity=cs, input=vs, order=order, ids=ids, events=seq), evaluate, parents, cs, vs, order, ids, seq, tol)


def calculator(parents, caps, ins, order, ids, attr):
    from malstroem.network import FinalStateCalculator
    attrs = {attr: ins, "decoy": [v + 1 for v in ins]}
    nodes = nodes_of(parents, caps, ids, attrs)
    feats = [dict(type="Feature", id=k, geometry=dict(type="Point", coordinates=[1.5 * nodes[i]["nodeid"], -2.0]), properties=nodes[i]) for k, i in enumerate(order)]
    out = MemVector()
    FinalStateCalculator(MemVector(feats), attr, out).process()
    got = out.out
    compare([f["properties"] for f in got], ids, model(parents, caps, ins), "finalvolumes")
    for f in got:
        i = ids.index(f["properties"]["nodeid"])
        require(f["geometry"]["coordinates"] == [1.5 * ids[i], -2.0], "geometry of node %r changed to %r", ids[i], f["geometry"])
        for k, v in nodes[i].items():
            require(f["properties"].get(k, "missing") == v, "attribute %s of node %r is %r, expected %r", k, ids[i], f["properties"].get(k), v)
    return 1


def calc(rec, n, caps, ins, sh, nsh):
    perms = list(itertools.permutations(range(n)))
    k = 0
    for parents in forests(n):
        for cs in itertools.product(caps, repeat=n):
            for vs in itertools.product(ins, repeat=n):
                k += 1
                if k % nsh != sh:
                    continue
                order = perms[(k // nsh) % len(perms)]
                ids = ([5, 0, 2, 1], [0, 1, 2, 3])[k % 2][:n]
                attr = ("inputv", "rain10")[(k // 2) % 2]
                rec.check(lambda: dict(downstream=parents, capacity=cs, input=vs, order=order, ids=ids, attribute=attr), calculator, parents, cs, vs, order, ids, attr)


def big(rec, kind, n):
    if kind == "chain":
        parents = [None] + list(range(n - 1))
    elif kind == "chain-up":
        parents = list(range(1, n)) + [None]
    elif kind == "star":
        parents = [None] + [0] * (n - 1)
    elif kind == "binary":
        parents = [None] + [(i - 1) // 2 for i in range(1, n)]
    else:   # comb: spine with a tooth at each node
        parents = [None if i == 0 else (i - 2 if i % 2 == 0 else i - 1) for i in range(n)]
    caps = [(i * 7 % 5) * 0.5 for i in range(n)]
    ins = [(i * 11 % 7) * 0.25 for i in range(n)]
    for order in (list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 7919) % n)):
        for seq in (SEQS[1], SEQS[2]):
            rec.check(dict(kind=kind, nodes=n, order=order[:3], events=seq), evaluate, parents, caps, ins, order, list(range(n)), seq)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("n1", small, 1, [0, 1, 2.5, 1e9], [0, 0.5, 2.5, 4, 1e9], True, SH, NS)
    J.add("n2", small, 2, [0, 1, 2.5, 1e9], [0, 0.5, 2.5, 4], True, SH, NS)
    TC, TI = [0, 1e-12, 5e-7, 1e-4, 0.0999, 1.0005], [0, 2e-7, 1e-4, 1.0001, 1.001]     # millilitres and litres matter
    J.add("n1-tiny", small, 1, TC, TI, True, SH, NS, 1e-13)
    J.add("n2-tiny", small, 2, TC, TI, True, SH, NS, 1e-13, n=2)
    J.add("n3-tiny", small, 3, TC[::2] + TC[2:3], TI[1:4], False, SH, NS, 1e-13, n=4)
    J.add("n3", small, 3, [0, 1, 2.5], [0, 0.5, 4], True, SH, NS, n=8)
    J.add("n4", small, 4, [0, 2], [0, 1, 3], False, SH, NS, n=8)
    J.add("n5", small, 5, [0, 2], [0, 3], False, SH, NS, n=16)
    J.add("histories2", histories, 2, 6, SH, NS, n=2)
    J.add("histories3", histories, 3, 6, SH, NS, n=4)
    J.add("calculator3", calc, 3, [0, 2], [0, 1, 3], SH, NS, n=4)
    J.add("calculator4", calc, 4, [0, 2], [0, 3], SH, NS, n=8)
    for kind in ("chain", "chain-up", "star", "binary", "comb"):
        J.add("big-" + kind, big, kind, 5000)
    J.add("huge", big, "chain-up", 70000)
    if T:
        J.add("histories3-deep", histories, 3, 8, SH, NS, n=16)
        J.add("histories4-deep", histories, 4, 7, SH, NS, n=32)
        J.add("n3-more", small, 3, [0, 1, 2.5, 7], [0, 0.5, 2.5, 4], True, SH, NS, n=16)
        J.add("n4-orders", small, 4, [0, 2], [0, 1, 3], True, SH, NS, n=64)
        J.add("n5-more", small, 5, [0, 2, 3.5], [0, 3], False, SH, NS, n=64)
        J.add("n6", small, 5, [1, 2], [0, 1, 3], False, SH, NS, n=64)
    return J
