"""C27: commands running at the same time do not disturb each other.

Two commands of the process chain run as two processes with the same files, working directory and temporary directory. The first one is stopped before or after each
of its operations on files in turn, the second one runs - completely, or up to each of its own operations - and then the first one goes on.
"""
import ctypes
import os
import shutil
import signal
import tempfile

from ..core import require, Problem
from ..util import Jobs, SH, NS, cli, TRANSFORMS
from . import c19, c23
from .c19 import Chain, States, differ

BOUNDS = ("pairs of commands which may run at the same time, with the same GeoPackage or directory or separate outputs x every point before and after a file operation (write, truncate, flush, open for writing, remove, rename) "
          "of the first one, where the second one runs to its end; and x points of the second one (in steps) where it is stopped while the first one ends")
ASSUMPTIONS = ["each command is a process of its own and is switched at operations on files only", "SQLite and the operating system lock files as documented"]

BEFORE, AFTER, COUNT = 5, 6, 7
NAMES = {BEFORE: "before", AFTER: "after"}


class Process(object):
    """A command in a process of its own, which stops at most once"""

    def __init__(self, states, tmp, args, mode, n, timeout=60):
        L = c23.lib()
        L.flt_pipes.argtypes = [ctypes.c_int, ctypes.c_int]
        self.out, w = os.pipe()         # 'p' when it stops, the count at the end
        r, self.go = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 98
            try:
                os.close(self.out)
                os.close(self.go)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                signal.alarm(timeout)
                tempfile.tempdir = tmp
                os.chdir(states.work)
                L.flt_pipes(w, r)
                L.flt_arm(states.root.encode(), mode, n)
                code, exc = cli(*args)
                code = code & 255
                if code == 0 and exc is not None:
                    code = 97
                del exc
                import gc
                gc.collect()
                L.flt_disarm()
                os.write(w, b"%d" % L.flt_count())
            finally:
                os._exit(code)
        os.close(w)
        os.close(r)
        self.count = 0

    def until(self):
        """Waits until it stops (True) or has ended (False)"""
        b = os.read(self.out, 64)
        if b == b"p":
            return True
        while b:
            self.count = int(b)
            b = os.read(self.out, 64)
        return False

    def resume(self):
        os.write(self.go, b"g")

    def end(self):
        while self.until():
            self.resume()
        os.close(self.out)
        os.close(self.go)
        self.code = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
        return self.code


class Pairs(object):
    def __init__(self, chain, root, inputs):
        self.chain = chain
        self.states = States(chain, root, inputs)
        self.F = c23.Faults(chain, self.states)
        self.tmp = os.path.join(root, "tmp")

    def state(self, a, b):
        s = frozenset(self.F.before(a) | self.F.before(b))
        require(a not in s and b not in s, "bad pair")
        return s

    def expected(self, s, x):
        self.states.state(s | {x})
        return {o: self.states.desc[s | {x}][o] for o in self.chain.steps[x][2]}

    def fresh(self, s):
        self.states.prepare(self.states.state(s))
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.mkdir(self.tmp)

    def process(self, x, mode, n):
        return Process(self.states, self.tmp, self.chain.steps[x][1], mode, n)

    def count(self, s, x):
        self.expected(s, x)
        self.fresh(s)
        p = self.process(x, COUNT, 0)
        require(p.end() == 0, "%s fails", x)
        return p.count

    def run(self, a, b, mode, n, modeb=COUNT, m=0):
        s = self.state(a, b)
        want = {x: self.expected(s, x) for x in (a, b)}
        self.fresh(s)
        pa = self.process(a, mode, n)
        stopped = pa.until()
        pb = self.process(b, modeb, m)
        if pb.until():
            if stopped:
                pa.resume()
            ca = pa.end()
            pb.resume()
            cb = pb.end()
        else:
            cb = pb.end()
            if stopped:
                pa.resume()
            ca = pa.end()
        codes = {a: ca, b: cb}
        st = self.states
        for x in codes:
            require(codes[x] >= 0 and codes[x] != 97, "%s ends with %r", x, codes[x])
        for f in sorted(os.listdir(st.work)):
            if f.endswith(".gpkg"):
                c23.tables(os.path.join(st.work, f))    # integrity
        say = "%s (exit code %r) and %s (exit code %r)" % (a, ca, b, cb)
        for o, v in st.desc[s].items():
            self.same(o, v, say + ": %s, which existed before," % o)
        for x in codes:
            if codes[x] == 0:
                for o, v in want[x].items():
                    self.same(o, v, say + ": output %s of %s" % (o, x))
        paths = {x: {o if o.endswith(".tif") else self.chain.layers[o][0] for o in want[x]} for x in want}
        if not (paths[a] & paths[b]):
            for x in codes:
                require(codes[x] == 0, "%s: %s fails although the outputs are different files", say, x)
        else:
            require(0 in codes.values(), "%s: both fail", say)
        left = os.listdir(self.tmp)
        require(not left, "%s: temporary files are left: %s", say, left)
        return 2, (a, b, ca, cb)

    def same(self, o, v, what):
        try:
            got = self.chain.describe(self.states.work, o)
        except (Exception, Problem) as e:
            raise Problem("%s cannot be read: %s" % (what, str(e)[:200]))
        require(got == v, "%s is not right: %s", what, differ(got, v) if got[0] == v[0] else "")


TWO = [("init", "init1"), ("bluespots_polys", "watersheds_polys"), ("network", "hyps"), ("final", "final1"), ("levels", "levels1"), ("fpolys", "init1"), ("pourpts", "bluespots_polys"),
       ("fbs", "fbs1"), ("filled", "flowdir"), ("fpolys", "fpolys1"), ("bspots", "flowdir"), ("wsheds", "bluespots_polys"), ("levels", "network")]


def explore(rec, opts, pairs, sh, n, stride, most=0):
    chain = Chain(dict(opts, zres=0.5, vector=True, accum=False, scenarios=["mm:20", "mm:250"]))
    P = Pairs(chain, rec.fresh(), c23.inputs_of(0))
    k = 0
    for a, b in pairs:
        if a not in chain.steps or b not in chain.steps:
            continue
        if a in P.F.before(b) or b in P.F.before(a):
            continue
        for x, y in ((a, b), (b, a)):
            k += 1
            if k % n != sh:
                continue
            s = P.state(x, y)
            N, M = P.count(s, x), P.count(s, y)
            for i in range(1, N + 1):
                for mode in (BEFORE, AFTER):
                    if stride == 1 or N <= 30 or (2 * i + mode) % stride == 0 or i <= 6 or i > N - 3:
                        rec.check(lambda: dict(commands=(x, y), options=opts, stop="%s of %s" % (i, N), where=NAMES[mode]), P.run, x, y, mode, i)
            if most:
                grid = [(i, j) for i in range(1, N + 1) for j in range(1, M + 1)]
                q = max(1, len(grid) // most)
                for g in range((k * 7) % q, len(grid), q):
                    i, j = grid[g]
                    ma, mb = ((BEFORE, BEFORE), (BEFORE, AFTER), (AFTER, BEFORE), (AFTER, AFTER))[g % 4]
                    rec.check(lambda: dict(commands=(x, y), options=opts, stop="%s of %s" % (i, N), where=NAMES[ma], stop_second="%s of %s" % (j, M), where_second=NAMES[mb]), P.run, x, y, ma, i, mb, j)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("one", explore, dict(one=True), TWO, SH, NS, 1 if T else 9, 2000 if T else 12, n=26)
    J.add("files", explore, dict(one=False), TWO, SH, NS, 1 if T else 5, 1000 if T else 8, n=26)
    return J
