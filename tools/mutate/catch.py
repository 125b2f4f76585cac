#!/usr/bin/env python3
"""Runs the checks against surviving mutants, in copies of /repo and /verif, until one catches it.
catch.py surv.ndjson out.ndjson workers [skip-file of ids]"""
import json, os, shutil, subprocess, sys, threading, time
src, out, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
only = set(json.load(open(sys.argv[4]))) if len(sys.argv) > 4 else None
ORDER = {
 "web/web.go": "10 13 12 09 11 16 14 22 21 20 17 19 15", "web/utils.go": "13 14 11 10 09 20 16",
 "validator": "07 06 05 20 12 10 13", "errors": "05 12 20 06 07", "api/api.go": "05 20 22 07 15",
 "localstore": "02 03 01 04 15 18", "pathtrie": "01 02 18", "engine": "01 04 03 07 02 20", "adapter/adapter.go": "01 05 20 22 10",
 "keyset": "08 06 17 19 20 15", "authserver": "17 13 21 08 06 12 20 19 15", "client/": "13 21 12 10", "networking": "19 17 12 08 16 13 20",
 "crdeventhandler": "21 01 02 03 04 18 20 17", "handler": "18 03 02", "controller": "18 03 02 15", "initializer": "18 02 03 21 16", "policy/": "01 02 05 10 03",
 "config": "16 10", "cmd": "16 01 10 14", "": "01 02 03 05 10 13 16 20",
}
def order(f):
    for k, v in ORDER.items():
        if k in f:
            return ["C" + x for x in v.split()]
lock = threading.Lock()
todo = {}
done = set()
if os.path.exists(out):
    done = {json.loads(x)["id"] for x in open(out)}
taken = set(done)
def next_():
    with lock:
        for l in open(src):
            m = json.loads(l)
            if m["result"] == "survives" and m["id"] not in taken and (only is None or m["id"] in only):
                taken.add(m["id"])
                return m
def work(k):
    base = "/tmp/catch%d" % k
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/repo", base + "/repo", symlinks=True)
    shutil.copytree("/verif", base + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    os.makedirs(base + "/verif/evidence")
    for f in ("check.py", "harness/go.mod"):
        p = base + "/verif/" + f
        t = open(p).read().replace("/repo", base + "/repo")
        open(p, "w").write(t)
    while not os.path.exists("/tmp/stop-catch"):
        m = next_()
        if m is None:
            break
        p = base + "/repo/" + m["file"]
        orig = open(p, "rb").read()
        assert orig == open("/repo/" + m["file"], "rb").read()
        open(p, "wb").write(orig[:m["from"]] + m["text"].encode() + orig[m["to"]:])
        m["caught"], m["ran"] = None, []
        t0 = time.time()
        for c in order(m["file"]):
            try:
                r = subprocess.run(["./check.py", c, "quick"], cwd=base + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = -9, ""
            m["ran"].append([c, rc])
            if rc == 1 and "VIOLATION" in o:
                m["caught"] = c
                m["out"] = o[-1200:]
                break
            if rc not in (0, 1):
                m["ran"][-1].append(o[-400:])
        m["s"] = round(time.time() - t0)
        open(p, "wb").write(orig)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
for t in ts: t.start()
for t in ts: t.join()
