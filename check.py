#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough]

Model-checks the property's TLA+ modules with TLC, has TLC write the behaviours
(cases, walks) the real adapter is driven through, drives it (harness/cmd/conform),
checks recorded traces against the trace modules, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Any other exit: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.23.12"
GOENV = {
    "PATH": GOROOT + "/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
    "GOROOT": GOROOT, "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GO111MODULE": "on", "HOME": "/root",
}


class CheckError(Exception):
    pass


def key(state):
    return json.dumps(state, sort_keys=True)


def edge_walks(transitions, init, length, rng, limit=None):
    """Walks from the initial state that together take every transition (at
    most `limit` walks). Returns lists of transitions."""
    out = {}
    for t in transitions:
        out.setdefault(key(t["from"]), []).append(t)
    todo = {k: list(v) for k, v in out.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    walks = []
    while left and (limit is None or len(walks) < limit):
        cur, walk = key(init), []
        while len(walk) < length:
            if todo.get(cur):
                t = todo[cur].pop()
                left -= 1
                walk.append(t)
                cur = key(t["to"])
                continue
            # nearest state with a transition not taken yet
            prev, frontier, goal = {cur: None}, [cur], None
            while frontier and goal is None:
                nxt = []
                for k in frontier:
                    for t in rng.sample(out.get(k, []), len(out.get(k, []))):
                        k2 = key(t["to"])
                        if k2 not in prev:
                            prev[k2] = (k, t)
                            nxt.append(k2)
                            if todo.get(k2):
                                goal = k2
                                break
                    if goal:
                        break
                frontier = nxt
            if goal is None:
                break
            path = []
            while prev[goal]:
                k, t = prev[goal]
                path.append(t)
                goal = k
            walk += reversed(path)
            cur = key(walk[-1]["to"])
        if not walk:
            break
        walks.append(walk[:length] if len(walk) > length else walk)
    return walks, left


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.big = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.behaviours = self.checked = 0
        self.traces = 0
        self.models, self.samples, self.violations, self.assumptions = [], [], [], []
        self.counts = {}
        self.bins = {}
        self.start = time.time()

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=600, ok_codes=(0,), java=""):
        e = dict(os.environ)
        e.update({"TIER": self.tier, "SEED": str(self.seed)})
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = ("-Xmx8g -Djava.io.tmpdir=%s " % self.dir) + java
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ["tlc", "-metadir", meta, "-workers", str(workers), "-seed", str(self.seed), "-noGenerateSpecTE",
               "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
        t = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError("TLC exceeded %ss on %s" % (timeout, module))
        self.log("tlc %s %s: exit %d in %.1fs" % (module, cfg or "", p.returncode, time.time() - t))
        if ok_codes is not None and p.returncode not in ok_codes:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, out[-4000:]))
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    def refuted(self, module, cfg, **kw):
        """Makes sure that TLC refutes a deliberately broken variant: the model has teeth."""
        code, out = self.tlc(module, cfg, ok_codes=None, **kw)
        if code not in (12, 13) or "violated" not in out:
            raise CheckError("TLC did not refute %s %s (exit %d):\n%s" % (module, cfg, code, out[-2000:]))
        self.counts["broken variants of the specification refuted"] = self.counts.get("broken variants of the specification refuted", 0) + 1

    def mc(self, module, cfg=None, **kw):
        """Model-checks a module; its numbers go into the evidence."""
        code, out = self.tlc(module, cfg, **kw)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if dist == 0:
            raise CheckError("TLC explored nothing in %s:\n%s" % (module, out[-2000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "distinct_states": dist, "states_generated": gen})
        return out

    def gen(self, module, name, cfg="Empty.cfg", env=None, **kw):
        """Has TLC write a case file."""
        path = os.path.join(self.dir, name)
        e = {"OUT": path}
        e.update(env or {})
        self.tlc(module, cfg, env=e, workers=1, **kw)
        if not os.path.exists(path):
            raise CheckError("%s wrote no cases" % module)
        return path

    def graph(self, module, cfg=None, env=None, **kw):
        """Has TLC print what the module exports: "@@" a transition, "##" a state,
        "%%" constants, each followed by JSON. Returns these three lists."""
        code, out = self.tlc(module, cfg, env=env, workers=1, **kw)
        res = {"@@": [], "##": [], "%%": []}
        for line in out.splitlines():
            if line[:3] in ('"@@', '"##', '"%%'):
                res[line[1:3]].append(json.loads(json.loads(line)[2:]))
        return res["@@"], res["##"], res["%%"]

    def simulate(self, module, cfg, num, depth, last="hist", env=None, **kw):
        """Random behaviours: what the module prints ("@@" and JSON) at the given depth, one per behaviour."""
        code, out = self.tlc(module, cfg, env=env, workers=1, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1)], **kw)
        seen, res = set(), []
        for line in out.splitlines():
            if line.startswith('"@@'):
                v = json.loads(json.loads(line)[2:])
                k = json.dumps(v["steps"][:-1])
                if k not in seen:
                    seen.add(k)
                    res.append(v)
        if len(res) < num // 2:
            raise CheckError("%s printed %d behaviours of %d" % (module, len(res), num))
        return res

    def check_trace(self, module, path, cfg=None, what="trace", timeout=300, env=None):
        """Validates a recorded trace. Returns None if the specification allows it, else an explanation."""
        e = {"TRACE": path}
        e.update(env or {})
        code, out = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, ok_codes=None,
                             java="-Dtlc2.tool.queue.IStateQueue=StateDeque")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        if code == 0 and m and int(m[-1][1]) > 0:
            self.traces += 1
            return None
        if "TRACE-REJECTED" in out or "is violated" in out or "POSTCONDITION" in out or "Postcondition" in out:
            mm = re.findall(r"TRACE-REJECTED[^\n]*", out)
            mm += re.findall(r"(?:Invariant|Action property|Postcondition|Temporal properties)[^\n]*violated[^\n]*", out)
            return "; ".join(mm) or out[-1500:]
        raise CheckError("TLC failed on trace %s with %s (exit %d):\n%s" % (path, module, code, out[-4000:]))

    # ---- Go ------------------------------------------------------------
    def build(self, pkg="./cmd/conform", race=False, optional=False):
        key = (pkg, race)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.dir, "bin-%s%s" % (os.path.basename(pkg), "-race" if race else ""))
        e = dict(os.environ)
        e.update(GOENV)
        for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT"):
            e.pop(k, None)
        h = os.path.join(self.dir, "harness")
        if not os.path.exists(h):
            shutil.copytree(os.path.join(VERIF, "harness"), h)
        t = time.time()
        p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, pkg], cwd=h, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.log("go build %s race=%s: exit %d in %.1fs" % (pkg, race, p.returncode, time.time() - t))
        if p.returncode != 0:
            if optional:
                self.log(p.stdout[-2000:])
                self.bins[key] = None
                return None
            raise CheckError("go build failed:\n" + p.stdout[-4000:])
        self.bins[key] = out
        return out

    def conform(self, name=None, race=False, timeout=600, pkg="./cmd/conform", optional=False, args=()):
        """Drives the real code; merges the report."""
        name = name or self.prop
        b = self.build(pkg=pkg, race=race, optional=optional)
        if b is None:
            self.assumptions.append("%s was skipped: its in-process driver does not compile against this tree" % name)
            return None
        out = os.path.join(self.dir, "report-%s.json" % name)
        trace = os.path.join(self.dir, "traces-" + name)
        scratch = os.path.join(self.dir, "scratch-" + name)
        os.makedirs(trace, exist_ok=True)
        os.makedirs(scratch, exist_ok=True)
        e = dict(os.environ)
        e.update(GOENV)
        for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
            e.pop(k, None)
        e["HOME"] = scratch
        e["TMPDIR"] = scratch
        t = time.time()
        cmd = [b, "-prop", name, "-in", self.dir, "-out", out, "-trace", trace, "-seed", str(self.seed), "-tier", self.tier,
               "-scratch", scratch, "-deadline", "%ds" % (timeout - 20),
               "-known", "\n".join(k for k, _ in self.known())] + list(args)
        p = subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True, cwd=scratch)
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            text, _ = p.communicate()
            raise CheckError("driver %s exceeded %ss\n%s" % (name, timeout, text[-3000:]))
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.log("conform %s: exit %d in %.1fs" % (name, p.returncode, time.time() - t))
        if not os.path.exists(out):
            raise CheckError("driver %s died (exit %s):\n%s" % (name, p.returncode, text[-6000:]))
        rep = json.load(open(out))
        if p.returncode not in (0, 5):
            raise CheckError("driver %s ended with %s:\n%s" % (name, p.returncode, text[-6000:]))
        if rep.get("errors") and not rep.get("violations"):
            raise CheckError("driver %s: %s" % (name, "\n".join(rep["errors"])[:4000]))
        self.behaviours += rep["behaviours"]
        self.checked += rep["checked"]
        for k, v in (rep.get("counts") or {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples += (rep.get("samples") or [])[:5]
        self.violations += rep.get("violations") or []
        rep["trace_dir"] = trace
        return rep

    def viol(self, key, case, expected, observed):
        self.violations.append({"key": key, "case": case, "expected": expected, "observed": observed})

    def log(self, s):
        print("[%6.1fs] %s" % (time.time() - self.start, s), file=sys.stderr, flush=True)

    # ---- verdict -------------------------------------------------------
    def known(self):
        res = []
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    def finish(self):
        known = self.known()
        new, hit = [], set()
        for v in self.violations:
            for k, what in known:
                if v["key"] == k:
                    hit.add((k, what))
                    break
            else:
                new.append(v)
        for k, what in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for k, what in known:
            if (k, what) not in hit:
                self.log("known finding not seen in this run: " + k)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.behaviours + self.traces,
                "comparisons_with_specification": self.checked,
                "recorded_traces_checked_by_tlc": self.traces,
                "models": self.models, "counts": self.counts,
                "samples": self.samples[:8],
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 1), "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "rerun": "VERIF_SEED=%d ./check.py %s %s" % (self.seed, self.prop, self.tier),
                           "violations": new[:50]}, f, indent=1, default=str)
            for v in new[:5]:
                print("  %s\n    expected: %s\n    observed: %s" % (str(v["key"])[:500], str(v["expected"])[:500], str(v["observed"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.behaviours + self.traces == 0:
            raise CheckError("nothing was validated against the implementation")
        print("property %s: held on %d states, %d behaviours, %d comparisons (%.1fs)" % (
            self.prop, self.states, self.behaviours + self.traces, self.checked, time.time() - self.start))
        return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    import checks
    ctx = Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
        code = ctx.finish()
    except CheckError as e:
        # violations the real code has already shown stand, whatever failed afterwards
        known = [k for k, _ in ctx.known()]
        if any(v["key"] not in known for v in ctx.violations):
            print("after the violations below: %s" % e, file=sys.stderr)
            code = ctx.finish()
        else:
            print("CHECK ERROR: %s" % e, file=sys.stderr)
            code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
