#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/seeds: the patch from textual edits, the demonstration from
Go code and the harness; keeps it only if the patched tree builds, passes the stable tests,
and the demonstration tells the trees apart. Usage: mkseeds.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools", "seeds"))
import seeds
M = "github.com/ibm-cloud-security/app-identity-and-access-adapter"
GR = "/opt/veriftools/go1.23.12"
ENV = dict(os.environ, GOROOT=GR, PATH=GR + "/bin:" + os.environ["PATH"], GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", HOME="/root")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def tests(repo):
    pk = [p for p in sh(["go", "list", "-e", "./..."], repo).stdout.split() if not re.fullmatch(re.escape(M) + r"/(adapter|tests/integration/(jwt|oidc))", p) and p.startswith(M)]
    out = sh(["go", "test", "-json", "-vet=off", "-count=1"] + pk, repo).stdout
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return [s for s in STABLE if s not in ok]

def demo(d, repo):
    p = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
    return p.returncode, p.stdout[-6000:]

def blame_ok(repo, patch):
    """at least one removed line of the patch belongs to the original repository"""
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    mine, other = 0, 0
    f, n = None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout
            h = b.split()[0].lstrip("^")
            if base.startswith(h) or h.startswith(base[:20]):
                mine += 1
            else:
                other += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    return mine, other

def main():
    ids = sys.argv[1:] or sorted(seeds.SEEDS)
    tmp = tempfile.mkdtemp(prefix="seeds")
    repo = os.path.join(tmp, "repo")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", repo, "HEAD"], check=True)
    try:
        for i in ids:
            s = seeds.SEEDS[i]
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
            bad = None
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = "%s: %d occurrences of %r" % (f, t.count(old), old)
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(i, "SKIPPED", bad)
                continue
            patch = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
            d = os.path.join(tmp, "out-" + i)
            shutil.copytree(os.path.join(ROOT, "harness"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("cmd"))
            os.makedirs(os.path.join(d, "src", "demo"))
            shutil.copy(os.path.join(ROOT, "tools", "seeds", "lib.go"), os.path.join(d, "src", "demo", "lib.go"))
            shutil.copy(os.path.join(ROOT, "tools", "seeds", "run.py"), d)
            if s.get("race"):
                open(os.path.join(d, "race"), "w").close()
            if "startProgram(" in s["demo"]:
                open(os.path.join(d, "program"), "w").close()
            imports = "".join('\t"%s"\n' % x for x in s.get("imports", [])) + '\n\t"verif/harness/world"\n'
            open(os.path.join(d, "src", "demo", "demo.go"), "w").write("package main\n\nimport (\n%s)\n\nfunc demo(w *world.World) {\n%s}\n" % (imports, s["demo"].strip("\n") + "\n"))
            sh(["gofmt", "-w", "src/demo/demo.go"], d)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = sh(["go", "build", "./..."], repo)
            if b.returncode:
                print(i, "DOES NOT BUILD", b.stdout[-800:])
                continue
            missing = tests(repo)
            if missing:
                print(i, "FAILS TESTS", missing[:4])
                continue
            clean = lambda o: "\n".join(x for x in o.splitlines() if "\tinfo\t" not in x)[-300:]
            rc1, o1 = demo(d, repo)
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
            rc0, o0 = demo(d, repo)
            own = blame_ok(repo, patch)
            ok = rc0 == 0 and rc1 != 0 and own[0] > 0
            print(i, "OK" if ok else "BAD", "unchanged %d patched %d original lines %s" % (rc0, rc1, own), "" if ok else clean(o0), "|", clean(o1), flush=True)
            if ok:
                t = os.path.join(ROOT, "seeded", i)
                if os.path.exists(t):
                    shutil.rmtree(t)
                shutil.copytree(d, t)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", repo])
        shutil.rmtree(tmp)

if __name__ == "__main__":
    main()
