#!/usr/bin/env python3
"""Finds the mutants (of mutate/main.go) that build and pass the stable tests.
survivors.py mutants.ndjson out.ndjson workers"""
import json, os, random, shutil, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mkseeds as mk
src, out, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
todo = queue.Queue()
done = set()
if os.path.exists(out):
    done = {l for l in (json.loads(x)["id"] for x in open(out))}
for i, l in enumerate(open(src)):
    m = json.loads(l); m["id"] = i
    if i not in done:
        todo.put(m)
lock = threading.Lock()
env = dict(mk.ENV, GOCACHE="/tmp/mcache")
def sh(cmd, cwd, t=240):
    try:
        return subprocess.run(["nice", "-n", "15"] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None
def work(k):
    repo = "/tmp/mut%d/repo" % k
    shutil.rmtree("/tmp/mut%d" % k, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    pk = [p for p in sh(["go", "list", "-e", "./..."], repo).stdout.split() if p.startswith(mk.M) and not p.endswith("/adapter") and "/tests/integration/" not in p]
    while True:
        try:
            m = todo.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(repo, m["file"])
        orig = open(p, "rb").read()
        open(p, "wb").write(orig[:m["from"]] + m["text"].encode() + orig[m["to"]:])
        r = "survives"
        b = sh(["go", "build", "./..."], repo)
        if b is None or b.returncode:
            r = "no build"
        else:
            t = sh(["go", "test", "-vet=off", "-json", "-timeout", "60s"] + pk, repo)
            ok = set()
            for l in (t.stdout.splitlines() if t else []):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Action") == "pass" and e.get("Test"):
                    ok.add(e["Package"] + "/" + e["Test"])
            if any(s not in ok for s in mk.STABLE if "/tests/integration/" not in s):
                r = "killed"
        open(p, "wb").write(orig)
        m["result"] = r
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree("/tmp/mut%d" % k, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
for t in ts: t.start()
for t in ts: t.join()
