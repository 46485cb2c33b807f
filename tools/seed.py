"""Validates planted bugs: python3 tools/seed.py SPECS.py [id ...]   (SPECS.py defines S = [dict(id, property, edits, demo, needs, breaks)])

For every spec: a scratch copy of /repo is changed, built and tested, the demonstration is run on both trees, then
the property's quick check is run against the scratch copy.  Bugs which pass are stored in seeded/<id>/.
`recheck` as first argument runs the checks against all bugs stored in seeded/ again.
"""
import json, os, shutil, subprocess, sys, time, runpy
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ROOT = os.environ.get("SEED_ROOT", "/tmp/sw")
OUT = os.environ.get("SEED_OUT", "/tmp/seed-results.jsonl")
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
stable = set(BASE["stable"])


def sh(cmd, cwd=None, env=None, timeout=1000):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def scripts(tree):
    d = tree + ".vp"
    os.makedirs(d, exist_ok=True)
    for n in os.listdir("/opt/vp"):
        p = os.path.join("/opt/vp", n)
        if os.path.isfile(p):
            s = open(p, errors="replace").read().replace('"/repo', '"' + tree).replace("cd /repo", "cd " + tree).replace("/opt/vp/", d + "/")
            if n == "env.sh":
                s = s.replace("unset PYTHONPATH", "export PYTHONPATH=%s; unset" % tree)
            open(os.path.join(d, n), "w").write(s)
    return d


def copy(tree):
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", tree])


def check(tree, prop, tier="quick", timeout=1000):
    env = dict(os.environ, MC_REPO=tree, MC_CACHE=os.path.join(ROOT, "cache"), MC_EVIDENCE=os.path.join(ROOT, "evidence"))
    t = time.time()
    rc, out = sh(["bash", os.path.join(V, "run.sh"), prop, "--tier", tier], env=env, timeout=timeout)
    line = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return rc, (line[0] if line else out[-300:]), round(time.time() - t)


def demo(dirname, tree):
    env = {k: v for k, v in os.environ.items() if not k.startswith("MC_")}
    env["TMPDIR"] = "/tmp"
    return sh(["bash", os.path.join(dirname, "demo.sh")], cwd=tree, env=env, timeout=300)


def one(spec):
    tree = os.path.join(ROOT, spec["id"])
    res = dict(id=spec["id"], property=spec["property"])
    copy(tree)
    vp = scripts(tree)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return dict(res, status="edit matches %d times: %s %r" % (s.count(old), f, old[:60]))
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", tree, "diff"], stdout=subprocess.PIPE, text=True).stdout
        rc, out = sh(["bash", vp + "/build.sh"])
        if rc:
            return dict(res, status="build failed", out=out[-800:])
        tj = tree + ".json"
        sh(["bash", vp + "/test.sh", tj])
        passed = set(json.load(open(tj))["passed"])
        os.remove(tj)
        if stable - passed:
            return dict(res, status="tests fail", out=sorted(stable - passed)[:4])
        d = os.path.join(ROOT, spec["id"] + ".demo")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc1, o1 = demo(d, tree)
        rc0, o0 = demo(d, "/repo")
        if rc0 or not rc1:
            return dict(res, status="demo: clean %d patched %d" % (rc0, rc1), out=(o0[-600:], o1[-600:]))
        dst = os.path.join(V, "seeded", spec["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        shutil.rmtree(d)
        open(dst + "/patch.diff", "w").write(patch)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        rc, line, t = check(tree, spec["property"])
        return dict(res, status="caught" if rc == 1 and line.startswith("VIOLATION") else "MISSED rc=%d" % rc, out=line, secs=t, demo=o1.strip()[-200:])
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(vp, ignore_errors=True)


def recheck(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    tree = os.path.join(ROOT, i)
    copy(tree)
    try:
        rc, out = sh(["git", "-C", tree, "apply", d + "/patch.diff"])
        if rc:
            return dict(id=i, property=prop, status="patch does not apply", out=out)
        rc, line, t = check(tree, prop)
        return dict(id=i, property=prop, status="caught" if rc == 1 and line.startswith("VIOLATION") else "MISSED rc=%d" % rc, out=line, secs=t)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "recheck":
        todo = [(recheck, i) for i in (sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))))]
    else:
        S = runpy.run_path(sys.argv[1])["S"]
        assert len(set(s["id"] for s in S)) == len(S)
        todo = [(one, s) for s in S if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    for f, a in todo:
        try:
            r = f(a)
        except Exception as e:
            r = dict(id=str(a)[:40], status="error %r" % e)
        print(r.get("id"), r.get("property"), r["status"], r.get("secs", ""), str(r.get("out", ""))[:400], flush=True)
        with open(OUT, "a") as fo:
            fo.write(json.dumps(r) + "\n")
