#!/usr/bin/env python3
"""Development tool: applies each planted bug to /repo, runs its property's check, undoes it.  usage: try_seeds.py [ID ...]"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for i in ids:
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")]).returncode == 0
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "tools/check.py", prop], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    l = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
    how = [x for x in p.stdout.splitlines() if "found by" in x]
    print("%-26s %s %s rc=%d %.0fs %s" % (i, prop, "CAUGHT" if p.returncode == 1 and l else "missed", p.returncode, time.time() - t, how[:1]), flush=True)
    if p.returncode not in (0, 1):
        print(p.stdout[-1500:])
