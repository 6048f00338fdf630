#!/usr/bin/env python3
"""Development tool: run checks against the planted changes, each applied to a scratch copy of /repo.
bugmatrix.py [--all] [ID..]; default: the check of the change's own property; --all: every check. Results: /tmp/matrix.json"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
C = "/tmp/matrixrepo"
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEED))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]] if os.path.exists(os.path.join(V, "MANIFEST.json")) else props
OUT = "/tmp/matrix.json"
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
for b in ids:
    shutil.rmtree(C, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", C], check=True)
    subprocess.run(["git", "apply", os.path.join(SEED, b, "patch.diff")], cwd=C, check=True)
    own = json.load(open(os.path.join(SEED, b, "meta.json")))["property"]
    env = dict(os.environ, VERIF_REPO=C, VERIF_TARGET="/tmp/matrixtgt", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    for p in (claimed if every else [own]):
        t = time.time()
        r = subprocess.run(["python3", os.path.join(V, "check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=V)
        hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        res.setdefault(b, {})[p] = dict(code=r.returncode, hit=hit)
        if p == own or hit or r.returncode not in (0, 1):
            last = [l for l in r.stdout.splitlines() if l.strip()]
            print("%s %-34s %s %s %.0fs %s" % ("CAUGHT" if hit else "missed" if r.returncode == 0 else "ERROR", b, p, "(own)" if p == own else "",
                  time.time() - t, "" if r.returncode == 0 else (last[0][:150] if hit else r.stdout[-600:])), flush=True)
        json.dump(res, open(OUT, "w"))
shutil.rmtree(C, ignore_errors=True)
