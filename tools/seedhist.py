"""Collects first and latest result per planted bug from the result log of seed.py into tools/design/seeded.json."""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
p = V + "/tools/design/seeded.json"
h = json.load(open(p)) if os.path.exists(p) else {}
for l in open(os.environ.get("SEED_OUT", "/tmp/seed-results.jsonl")):
    d = json.loads(l)
    if not d.get("status", "").startswith(("caught", "MISSED")):
        continue
    s = "caught" if d["status"].startswith("caught") else "missed"
    if d["id"] not in h:
        h[d["id"]] = [s, s]
    h[d["id"]][1] = s
h = {k: v for k, v in h.items() if os.path.exists(V + "/seeded/" + k)}
json.dump(h, open(p, "w"), indent=0, sort_keys=True)
