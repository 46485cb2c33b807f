import importlib
import json
import os
import shutil
import sys
import tempfile
import time

import numpy as np


def scratch_parent():
    """Memory if there is enough of it: databases are synced to disk a lot otherwise"""
    d = "/dev/shm"
    try:
        if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 3 << 30:
            os.rmdir(tempfile.mkdtemp(dir=d))
            return d
    except OSError:
        pass
    return None


def main(argv):
    t0 = time.time()
    from . import boot, core
    if argv and argv[0] == "setup":
        boot.boot()
        boot.shim()
        print("setup ok")
        return 0
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            rp = json.load(f)
        prop, tier = rp["property"], rp["tier"]
    else:
        rp = None
        prop = argv[0]
        tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    if prop in ("C23", "C27") and "MC_SHIM" not in os.environ:
        lib = boot.shim()
        os.execve(sys.executable, [sys.executable, "-X", "faulthandler", "-m", "mc"] + argv, dict(os.environ, LD_PRELOAD=lib, MC_SHIM=lib))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only_job = argv[argv.index("--job") + 1] if "--job" in argv else None
    rdir = os.path.join(core.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    def violation(n, data):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        data = dict(data, property=prop, tier=tier, replay="bash /verif/run.sh --replay " + path)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + str(data.get("detail", ""))[:800].replace("\n", "\n  "))
        sys.stdout.flush()

    knownkeys = core.KNOWN = core.known(prop)
    core.SCRATCH = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=scratch_parent())
    try:
        problems, jobs, results = [], [], []
        mod = None
        try:
            boot.boot()
            mod = importlib.import_module("mc.props." + prop.lower())
            jobs = mod.jobs(tier)
        except Exception as e:  # the code under test cannot even be loaded
            import traceback
            problems.append(dict(job="load", ordinal=-1, case=None, detail="cannot load the code: %s" % traceback.format_exc()[-1500:]))
        if rp is not None and not problems:
            for j in jobs:
                if j[0] == rp["job"]:
                    res = core.run_job(j, only=rp["ordinal"])
                    print(json.dumps(res["violations"], indent=1))
                    return 1 if res["violations"] else 0
            print("no such job")
            return 2
        if only_job:
            jobs = [j for j in jobs if only_job in j[0]]
        if jobs:
            nw = len(os.sched_getaffinity(0))
            results = core.Pool(jobs, int(os.environ.get("MC_WORKERS", nw))).run(core.STOP_AFTER)
        seen = set()
        nknown = 0
        for r in sorted(results, key=lambda r: r["jobix"]):
            for v in r["violations"]:
                if v.get("key") and v["key"] in knownkeys:
                    nknown += 1
                    if v["key"] not in seen:
                        seen.add(v["key"])
                        print("KNOWN-FINDING: property=%s %s" % (prop, knownkeys[v["key"]]))
                    continue
                if v.get("dead"):
                    v["case"] = core.locate(jobs[r["jobix"]], v["ordinal"]) or v["case"]
                    v["detail"] += " while evaluating " + json.dumps(v["case"])[:600]
                problems.append(dict(v, job=jobs[r["jobix"]][0]))
        for n, v in enumerate(problems[:core.MAX_REPORT]):
            violation(n, v)
        if os.environ.get("MC_TIMES"):
            for r in sorted(results, key=lambda r: -r.get("seconds", 0))[:12]:
                print("  %6.1f s  %s" % (r.get("seconds", 0), jobs[r["jobix"]][0]))
        outcomes = set()
        counts, samples = {}, []
        for r in results:
            outcomes |= r["outcomes"]
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
        perjob = {}
        for r in sorted(results, key=lambda r: r["jobix"]):
            if len(samples) < 12:
                samples += [dict(job=jobs[r["jobix"]][0], case=s) for s in r["samples"]]
            fam = jobs[r["jobix"]][0].split("#")[0]
            perjob[fam] = perjob.get(fam, 0) + r["states"]
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=sum(r["states"] for r in results),
                                transitions=sum(r["transitions"] for r in results),
                                traces_validated_against_impl=sum(r["traces"] for r in results),
                                distinct_observed_outcomes=len(outcomes), states_per_family=perjob,
                                exhaustive=not problems and len(results) == len(jobs) and not only_job,
                                jobs=len(jobs), jobs_completed=len(results), samples=samples or ["none"],
                                bounds=getattr(mod, "BOUNDS", ""), known_findings_seen=nknown, **counts),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(problems))
        evidence = os.environ.get("MC_EVIDENCE", os.path.join(core.VERIF, "evidence"))
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, prop + ".json"), "w") as f:
            json.dump(core.jsonable(ev), f, indent=1)
        c = ev["coverage"]
        print("%s %s: %d states, %d transitions, %d traces validated, %d distinct outcomes, %d/%d jobs, %.1f s%s" % (
            prop, tier, c["states"], c["transitions"], c["traces_validated_against_impl"], len(outcomes), len(results), len(jobs),
            ev["wall_s"], "" if not problems else ", %d VIOLATIONS" % len(problems)))
        return 1 if problems else 0
    finally:
        shutil.rmtree(core.SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
