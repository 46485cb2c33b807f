"""C07: filter expressions mean what they say and nothing else is ever executed."""
import builtins
import itertools
import os
import numpy as np
from ..core import require, Problem
from ..util import Jobs, SH, NS, Scratch, write_tif, cli

BOUNDS = ("all sentences of one, two, three and four comparisons over the listed atoms, operators and parenthesisations x spacings, each evaluated on 27 bluespots; sentences of up to 1700 comparisons; "
          "all insertions of each foreign token and each foreign character (ASCII and others) at every position of 20 sentences, all replacements of one comparison operator by a sequence of allowed characters which is none, and all sentences made of foreign tokens")
ASSUMPTIONS = ["sentences are well formed; other malformed arrangements of allowed words and characters are not judged",
               "numbers have no superfluous leading zeros; comparisons are not chained"]

OPS = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
VARS = ("area", "maxdepth", "volume")
# bluespots: cells, largest depth, sum of depths (cell area 2)
STATS = np.array([(0.0, m, s, n) for n in (1, 5, 20) for m in (0.05, 0.5, 5.0) for s in (0.25, 2.5, 10.25)],
                 dtype=[("min", np.float64), ("max", np.float64), ("sum", np.float64), ("count", np.int64)])
CELL = 2.0
ENV = [dict(area=float(s["count"]) * CELL, maxdepth=float(s["max"]), volume=float(s["sum"]) * CELL) for s in STATS]


def value(x, env):
    return env[x] if x in VARS else float(x)


# an AST is (text pieces, function of env)
def atom(l, op, r):
    return [l, op, r], lambda env: OPS[op](value(l, env), value(r, env))


def both(op, a, b):
    f = (lambda env: a[1](env) and b[1](env)) if op == "and" else (lambda env: a[1](env) or b[1](env))
    return a[0] + [op] + b[0], f


def paren(a):
    return ["("] + a[0] + [")"], a[1]


def text(pieces, style):
    """style 0: single spaces, 1: as few as possible, 2: many"""
    if style == 0:
        return " ".join(pieces)
    if style == 2:
        return "  " + "   ".join(pieces) + "  "
    out = ""
    for p in pieces:
        if p in ("and", "or"):
            out += " %s " % p
        else:
            out += p
    return out.replace(") ", ")").replace(" (", "(")


def means(expr, f):
    from malstroem.scripts._utils import parse_filter
    from malstroem.bluespots import filterbluespots
    fn = parse_filter(expr)
    got = [bool(x) for x in filterbluespots(fn, CELL, STATS)]
    want = [bool(f(env)) for env in ENV]
    if got != want:
        k = [g != w for g, w in zip(got, want)].index(True)
        raise Problem("filter %r keeps a bluespot with %r: %r, expected %r" % (expr, ENV[k], got[k], want[k]))
    return len(ENV), tuple(got)


NUMBERS = ["2", "10", "10.0", "0.5", ".5", "5.", "20.5", "0", "0.05", "40", "5.000", "123456789.5"]


def one(rec):
    for v, op, n in itertools.product(VARS, OPS, NUMBERS):
        for l, r in ((v, n), (n, v)):
            a = atom(l, op, r)
            for e, f in (a, paren(a), paren(paren(a))):
                for st in range(3):
                    rec.check(lambda: dict(filter=text(e, st)), means, text(e, st), f)
    for v, op, w in itertools.product(VARS, OPS, VARS):
        e, f = atom(v, op, w)
        for st in range(3):
            rec.check(lambda: dict(filter=text(e, st)), means, text(e, st), f)
    for e in (None, ""):
        rec.check(lambda: dict(filter=e), means, e, lambda env: True)


ATOMS = [("area", ">", "10"), ("maxdepth", ">=", "0.5"), ("volume", "<", "20.5"), ("area", "<=", "2"), ("0.05", "!=", "maxdepth"), ("volume", "==", "0.5"),
         ("maxdepth", "<", "volume"), ("5", ">", "area")]


def two(rec):
    A = [atom(v, op, n) for v in VARS for op in OPS for n in ("2", "0.5", "10.0")]
    for a, b in itertools.product(A, A):
        for op in ("and", "or"):
            for k, (e, f) in enumerate((both(op, a, b), both(op, paren(a), b), both(op, a, paren(b)), paren(both(op, a, b)), both(op, paren(a), paren(b)))):
                rec.check(lambda: dict(filter=text(e, k % 3)), means, text(e, k % 3), f)


def precedence(items, ops):
    """Meaning without parentheses: and binds tighter than or"""
    groups = [[items[0]]]
    for op, it in zip(ops, items[1:]):
        if op == "and":
            groups[-1].append(it)
        else:
            groups.append([it])
    pieces = list(items[0][0])
    for op, it in zip(ops, items[1:]):
        pieces += [op] + it[0]
    return pieces, lambda env: any(all(x[1](env) for x in g) for g in groups)


def many(rec, k, natoms, sh, n):
    """k comparisons, all operator choices, no parentheses or one or two parenthesised runs"""
    A = [atom(*x) for x in ATOMS[:natoms]]
    no = 0
    for items in itertools.product(A, repeat=k):
        no += 1
        if no % n != sh:
            continue
        for ops in itertools.product(("and", "or"), repeat=k - 1):
            forms = [precedence(items, ops)]
            for i in range(k):
                for j in range(i + 1, k):
                    if i == 0 and j == k - 1:
                        continue
                    inner = paren(precedence(items[i:j + 1], ops[i:j]))
                    forms.append(precedence(list(items[:i]) + [inner] + list(items[j + 1:]), ops[:i] + ops[j:]))
                    # second parenthesis inside the first, or after it
                    if j - i >= 2:
                        inner2 = paren(precedence(items[i + 1:j + 1], ops[i + 1:j]))
                        forms.append(precedence(list(items[:i]) + [paren(precedence([items[i], inner2], ops[i:i + 1]))] + list(items[j + 1:]), ops[:i] + ops[j:]))
                    if j + 2 < k:
                        in2 = paren(precedence(items[j + 1:], ops[j + 1:]))
                        forms.append(precedence(list(items[:i]) + [inner, in2], ops[:i] + (ops[j],)))
            for q, (e, f) in enumerate(forms):
                t = text(e, (q + no) % 3)
                rec.check(lambda: dict(filter=t), means, t, f)


def long(rec):
    """Very long filters"""
    for k in (20, 50, 130, 400, 1000, 1700):
        for q in range(5):
            items = [atom(*ATOMS[i * (i + q) % len(ATOMS)] if i % 3 else ("volume", ">", "%d.%03d" % (900 + i, i))) for i in range(k)]
            for ops in (["or"] * (k - 1), ["and"] * (k - 1), [("and", "or", "and", "and", "or")[(i + q) % 5] for i in range(k - 1)]):
                e, f = precedence(items, ops)
                rec.check(lambda: dict(terms=k, start=text(e, q % 3)[:80]), means, text(e, q % 3), f)
            # what holds last decides
            last = atom("area", ">=", "0")
            for it in (last, atom("area", "<", "0")):
                e, f = precedence([atom("volume", ">", "1%06d" % i) for i in range(k)] + [it], ["or"] * k)
                rec.check(lambda: dict(terms=k, last=it[0]), means, text(e, q % 3), f)
                e, f = precedence([atom("volume", "<", "1%06d" % i) for i in range(k)] + [it], ["and"] * k)
                rec.check(lambda: dict(terms=k, last=it[0]), means, text(e, q % 3), f)


BASE = ["area > 10", "maxdepth>=0.5", "area > 20.5 and (maxdepth > 0.05 or volume > 2.5)", "volume==0 or area!=2 and maxdepth<1.5",
        "(area > 1)", "((area<2) or (volume>3))", "1<area", ".5 < volume"]
WORDS = ["not", "in", "is", "if", "else", "lambda", "True", "None", "stats", "mc_probe()", "mc_probe", "__import__('os')", "max", "min", "count", "sum", "print(1)",
         "x", "Area", "AREA", "depth", "vol", "aera", "exec", "open", "eval", "import", "yield", "await", "for", "walrus:=1", "a", "d", "n", "o", "r", "1e5", "0x1", "1j",
         "xor", "nand", "areal", "volumes", "'a'", '"a"', "'''", "[0]", "{}", "{1:2}", "# x", "\\", "\n#", "; 1", "*", "**", "+", "-1", "/", "//", "%", "&", "|", "^", "~", "@",
         ",", ":", "->", ":=", "$", "?", "`", "é", "√", "²", "０", "ａｒｅａ", "area_", "_", "\x00", "ſ", "…", "’"]


def rejected(expr):
    from malstroem.scripts._utils import parse_filter
    calls = []

    def mc_probe(*a):
        calls.append(a)
        return True
    builtins.mc_probe = mc_probe
    try:
        fn = parse_filter(expr)
    except Exception:
        require(not calls, "part of the filter %r was executed", expr)
        return 1, "rejected"
    finally:
        del builtins.mc_probe
    raise Problem("filter %r was accepted" % expr)


def insert(rec, sh, n):
    k = 0
    for b in BASE:
        for w in WORDS:
            for i in range(len(b) + 1):
                for sp in ("", " "):
                    k += 1
                    if k % n == sh:
                        e = b[:i] + sp + w + sp + b[i:]
                        rec.check(lambda: dict(filter=e), rejected, e)
    chars = [chr(c) for c in range(33, 0x180) if chr(c) not in "<>=!0123456789.()" and not chr(c).isspace()]
    for b in BASE:
        for ch in chars:
            for i in range(len(b) + 1):
                k += 1
                if k % n == sh:
                    e = b[:i] + ch + b[i:]
                    rec.check(lambda: dict(filter=e), rejected, e)
                    if i < len(b) and not b[i].isspace():   # replacing a character
                        e2 = b[:i] + ch + b[i + 1:]
                        if e2 != b:
                            rec.check(lambda: dict(filter=e2), rejected, e2)


def assignments(rec):
    """One comparison operator replaced by something which is none, though it consists of allowed characters."""
    for b in BASE + ["area>1 and volume>2 or maxdepth>3", "(area > 1 and (volume < 2))"]:
        t, i = [], 0
        while i < len(b):
            j = i + 1
            if b[i] in "<>=!":
                while j < len(b) and b[j] in "<>=!":
                    j += 1
            t.append(b[i:j])
            i = j
        for k, piece in enumerate(t):
            if piece[0] in "<>=!":
                for w in ("=", "!", "=<", "=>", "<>", "=!", "===", "!==", "><", "= =", "> =", "< =", "! =", "=!=", "<<=", ">>=", "<==", "!!", "!=="):
                    e = "".join(t[:k] + [w] + t[k + 1:])
                    rec.check(lambda: dict(filter=e), rejected, e)
    for e in ("area=5", "area = 5", "(area = 5)", "5 = area", "area = volume", "area > 1 and maxdepth = 2", "maxdepth = 0.05 or area > 1", "area = 5 == volume",
              "volume != 2 and (area = 1 or maxdepth > 2)", "area == 1 = 2"):
        rec.check(lambda: dict(filter=e), rejected, e)


def foreign(rec):
    for k in (1, 2):
        for ws in itertools.product(WORDS, repeat=k):
            for sep in (" ", "", " and ", ">"):
                e = sep.join(ws)
                if e == "aread" or "".join(e.split()) in ("or", "and", "area", "maxdepth"):   # the letters happen to form an allowed word
                    continue
                rec.check(lambda: dict(filter=e), rejected, e)
    for e in ("(lambda: mc_probe())()", "area > 1 or mc_probe()", "mc_probe() or area > 1", "[mc_probe() for area in (1, 2)]", "area if mc_probe() else volume",
              "__builtins__", "area.__class__", "(area).__class__.__mro__", "volume > 1) or mc_probe() or (area > 1", "area > 1 # and mc_probe()",
              "stats['area'] > 1", "area > 1\nmc_probe()", "area > 1; mc_probe()", "mc_probe()>area", "anmc_probe()d", "not area > 1", "area > -1", "area * 2 > 1",
              "area > 1e3", "area in (1, 2)", "area is 1", "~1 < area", "area > 'x'", "f'{mc_probe()}'", "area > 10 && volume > 2", "area > 10 || volume > 2",
              "area > 10 AND volume > 2", "bspot_area > 2", "areas > 2", "max > 2", "area > 10 xor volume > 2"):
        rec.check(lambda: dict(filter=e), rejected, e)


def command(expr, ok):
    with Scratch() as s:
        d = np.array([[0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 2, 2, 0]], np.float32)
        write_tif(s("d.tif"), d)
        code, exc = cli("bspots", "-depths", s("d.tif"), "-filter", expr, "-out", s("b.tif"))
        require((code == 0) == ok, "bspots -filter %r ended with exit code %r", expr, code)
        os.mkdir(s("out"))
        code, exc = cli("complete", "-dem", s("d.tif"), "-filter", expr, "-outdir", s("out"), "-mm", 10, "-zresolution", 0.5)
        require((code == 0) == ok, "complete -filter %r ended with exit code %r", expr, code)
    return 2


def commands(rec):
    for b in BASE:
        rec.check(dict(command="bspots/complete", filter=b), command, b, True)
    for e in ("not area > 1", "import os", "area > -1", "print(1)", "area > 'x'", "area > 1 and foo", "__import__('os')", "area * 2 > 1", "area = 5"):
        rec.check(dict(command="bspots/complete", filter=e), command, e, False)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("one", one)
    J.add("two", two)
    J.add("three", many, 3, 8, SH, NS, n=4)
    J.add("four", many, 4, 5, SH, NS, n=8)
    J.add("insert", insert, SH, NS, n=8)
    J.add("foreign", foreign)
    J.add("long", long)
    J.add("assignments", assignments)
    J.add("commands", commands)
    if T:
        J.add("four-all", many, 4, 8, SH, NS, n=32)
        J.add("five", many, 5, 5, SH, NS, n=32)
    return J
