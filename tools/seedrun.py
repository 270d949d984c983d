#!/usr/bin/env python3
"""seedrun.py [ID...]: applies each seeded bug to a copy of /repo and runs the check of its property there."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def run(i):
    d = "/tmp/seedrun/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedrun", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    p = subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=d)
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    env = dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", VERIF_EVIDENCE="/tmp/seedrun/ev-" + i)
    p = subprocess.run(["python3", V + "/check.py", m["property"]], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(d, ignore_errors=True)
    open("/tmp/seedrun/%s.log" % i, "w").write(p.stdout)
    return i, m["property"], p.returncode, [l for l in p.stdout.splitlines() if not l.startswith(("built", "job"))][:2]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, ids):
        print("%-28s %s rc=%s %s" % (r[0], r[1], r[2], "CAUGHT" if r[2] == 1 else "MISSED"), str(r[3])[:300], flush=True)
