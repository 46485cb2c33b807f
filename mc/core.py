"""Explorer: runs the exploration jobs of one property in worker processes, watches them and reports.

A job is a deterministic generator of cases (states of a bounded space).  For every case the worker first publishes
the ordinal of the case in shared memory and then evaluates it on the real code against the reference model.  A case
which makes the code raise, crash the process or hang is a violation exactly like one with a wrong result.
"""
import collections
import hashlib
import json
import mmap
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 5          # violations printed
STOP_AFTER = 8          # violations after which exploration stops
STALL = 300             # seconds one case may take (they take milliseconds to a few seconds)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"array": str(x.dtype), "shape": list(x.shape), "sha256": hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()}
        return {"array": str(x.dtype), "data": jsonable(x.tolist())}
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and not np.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Problem(Exception):
    """Raised by an evaluation to report that the property is broken. key identifies known findings."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def require(cond, msg, *args):
    if not cond:
        raise Problem(msg % args if args else msg)


def same(a, b, what):
    """Exact equality of two arrays"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Problem("%s: shape %r, expected %r" % (what, a.shape, b.shape))
    ok = (a == b) | ((a != a) & (b != b))
    if not ok.all():
        ix = tuple(int(i) for i in np.argwhere(~ok)[0])
        raise Problem("%s differs from the reference at %r: got %r, expected %r (%d cells differ)"
                      % (what, ix, a[ix].item(), b[ix].item(), int((~ok).sum())))


class _Found(Exception):
    pass


class Rec(object):
    """What a job reports to."""

    def __init__(self, slot=None, jobix=0, only=None):
        self.slot, self.jobix, self.only = slot, jobix, only
        self.ordinal = 0
        self.states = self.transitions = self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.located = None
        self.counts = collections.Counter()
        self._tmp = None

    def check(self, desc, fn, *args):
        """Evaluate one case. fn returns the number of operations applied (int) or (n, outcome) or None."""
        n = self.ordinal
        self.ordinal = n + 1
        if self.only is not None and n != self.only:
            return False
        if self.slot is not None:
            self.slot[0] = n
        self.states += 1
        try:
            r = fn(*args)
            outcome = None
            if type(r) is tuple:
                r, outcome = r
            self.transitions += 1 if r is None else r
            self.traces += 1
            if outcome is not None and len(self.outcomes) < 200000:
                self.outcomes.add(hash(outcome))
            if len(self.samples) < 1:
                self.samples.append(jsonable(desc() if callable(desc) else desc))
            return True
        except (KeyboardInterrupt, MemoryError):
            raise
        except Problem as e:
            self._fail(n, desc, str(e), e.key)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = ["%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb if "malstroem" in f.filename][-3:]
            self._fail(n, desc, "unexpected %s: %s %s" % (type(e).__name__, str(e)[:300], at), None)
        return False

    def _fail(self, n, desc, msg, key):
        if key and key in KNOWN:
            self.counts["known_finding_" + key] += 1
            if self.counts["known_finding_" + key] > 1:
                return
        d = jsonable(desc() if callable(desc) else desc)
        self.violations.append(dict(ordinal=n, case=d, detail=msg, key=key))
        if sum(v["key"] not in KNOWN for v in self.violations) >= STOP_AFTER:
            raise _Found()

    def tmp(self):
        """Scratch directory of this worker (removed at the end)"""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="mc-", dir=SCRATCH)
        return self._tmp

    def fresh(self):
        """New empty directory"""
        return tempfile.mkdtemp(dir=self.tmp())


SCRATCH = None
KNOWN = {}              # known findings of the property at hand


def _result(rec):
    return dict(jobix=rec.jobix, states=rec.states, transitions=rec.transitions, traces=rec.traces,
                outcomes=rec.outcomes, samples=rec.samples, violations=rec.violations, counts=dict(rec.counts),
                ordinal=rec.ordinal)


def run_job(job, slot=None, jobix=0, only=None):
    rec = Rec(slot, jobix, only)
    try:
        job[1](rec, *job[2])
    except _Found:
        pass
    except BaseException as e:
        if rec.violations:
            pass
        else:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = any("malstroem" in f.filename and "/verif/" not in f.filename for f in tb)
            rec.violations.append(dict(ordinal=rec.ordinal, case={"job": job[0]}, key=None,
                                       detail="unexpected %s while exploring: %s\n%s" % (
                                           type(e).__name__, str(e)[:300], "".join(traceback.format_tb(e.__traceback__)[-6:])),
                                       harness=not in_repo))
    return _result(rec)


def _worker(conn, slot, jobs):
    os.setpgid(0, 0)
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the parent
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter("ignore")
    while True:
        try:
            ix = conn.recv()
        except EOFError:
            return
        if ix is None:
            os._exit(0)
        t = time.monotonic()
        res = run_job(jobs[ix], slot, ix)
        res["seconds"] = time.monotonic() - t
        conn.send(res)


class Pool(object):
    def __init__(self, jobs, nworkers):
        self.jobs = jobs
        self.ctx = multiprocessing.get_context("fork")
        self.nworkers = nworkers

    def _spawn(self):
        slot = memoryview(mmap.mmap(-1, 64)).cast("q")  # slot[0] is stored with one aligned 8 byte write
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, slot, self.jobs), daemon=True)
        p.start()
        b.close()
        return dict(p=p, conn=a, slot=slot, job=None, since=0)

    def run(self, stop):
        todo = collections.deque(range(len(self.jobs)))
        workers = [self._spawn() for _ in range(min(self.nworkers, len(self.jobs)))]
        results, bad = [], 0
        try:
            while True:
                busy = 0
                for w in workers:
                    if w["job"] is None:
                        if not todo or bad >= stop:
                            continue
                        ix = todo.popleft()
                        w["slot"][0] = -1
                        w["job"], w["seen"], w["since"] = ix, -2, time.monotonic()
                        w["conn"].send(ix)
                    busy += 1
                if not busy:
                    return results
                ready = multiprocessing.connection.wait(
                    [w["conn"] for w in workers if w["job"] is not None] + [w["p"].sentinel for w in workers if w["job"] is not None], 1.0)
                for i, w in enumerate(workers):
                    if w["job"] is None:
                        continue
                    res = None
                    try:
                        if w["conn"].poll():
                            res = w["conn"].recv()
                            w["last"] = res
                    except (EOFError, OSError):
                        pass
                    if res is None:
                        n = w["slot"][0]
                        if n != w["seen"]:
                            w["seen"], w["since"] = n, time.monotonic()
                        limit = (self.jobs[w["job"]] + (None,) * 2)[3] or STALL
                        if not w["p"].is_alive():
                            w["p"].join()
                            res = self._dead(w, n, "the process running it died with exit code %r" % w["p"].exitcode)
                        elif time.monotonic() - w["since"] > limit:
                            res = self._dead(w, n, "no result after %d s" % limit)
                            bad += stop  # enough time is spent
                        else:
                            continue
                        self._kill(w)
                        workers[i] = self._spawn()
                    w["job"] = None
                    results.append(res)
                    bad += sum(v.get("key") not in KNOWN for v in res["violations"])
                if bad >= stop:
                    return results
        finally:
            for w in workers:
                self._kill(w)

    def _dead(self, w, n, why):
        ix = w["job"]
        return dict(jobix=ix, states=max(0, n), transitions=max(0, n), traces=max(0, n), outcomes=set(), samples=[], counts={},
                    ordinal=n, violations=[dict(ordinal=n, case={"job": self.jobs[ix][0], "ordinal": n}, detail=why, key=None, dead=True)])

    def _kill(self, w):
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except OSError:
            try:
                w["p"].kill()
            except OSError:
                pass
        w["p"].join(5)


def locate(job, n):
    """Description of the n'th case of a job, without evaluating any case."""
    class Loc(Rec):
        def check(self, desc, fn, *a, **k):
            i = self.ordinal
            self.ordinal += 1
            if i == n:
                self.located = jsonable(desc() if callable(desc) else desc)
                raise _Found()
            return False
    rec = Loc()
    try:
        job[1](rec, *job[2])
    except BaseException:
        pass
    return rec.located


def known(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("open: property=%s key=" % prop):
                    rest = line.split("key=", 1)[1]
                    key, _, text = rest.partition(" ")
                    out[key] = text
    except OSError:
        pass
    return out
