#!/usr/bin/env python3
"""Applies planted changes to /repo one by one, runs the property's check, and undoes them.
Usage: tryseeds.py [id...]"""
import glob, json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOOK = ROOT + "/tools/seeds/caught.json"
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
man = json.load(open(ROOT + "/MANIFEST.json"))
for i in ids:
    d = ROOT + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY")
        continue
    try:
        p = subprocess.run([sys.executable, ROOT + "/check.py", prop, "quick"] + os.environ.get("CHECKARGS", "").split(), cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        known = json.load(open(BOOK)) if os.path.exists(BOOK) else {}
        known[i] = prop if p.returncode == 1 and v else "missed by " + prop
        json.dump(known, open(BOOK, "w"), indent=0, sort_keys=True)
        print(i, prop, "CAUGHT" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, "%d s" % (time.time() - t), (v or p.stdout.splitlines()[-1:] or [""])[0][:200], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
