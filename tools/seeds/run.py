#!/usr/bin/env python3
"""Builds the demonstration against the tree in the current directory and runs it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
root = "/opt/veriftools/go1.23.12"
env = dict(os.environ, GOROOT=root, PATH=root + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", HOME="/root")
for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    env.pop(k, None)
with tempfile.TemporaryDirectory() as t:
    src = os.path.join(t, "src")
    shutil.copytree(os.path.join(here, "src"), src)
    mod = os.path.join(src, "go.mod")
    text = open(mod).read().replace("=> /repo\n", "=> %s\n" % repo)
    open(mod, "w").write(text)
    race = ["-race"] if os.path.exists(os.path.join(here, "race")) else []
    b = subprocess.run(["go", "build"] + race + ["-o", os.path.join(t, "demo"), "./demo"], cwd=src, env=env)
    if b.returncode:
        sys.exit(1)
    if os.path.exists(os.path.join(here, "program")):
        env["PROGRAM"] = os.path.join(t, "program")
        if subprocess.run(["go", "build", "-o", env["PROGRAM"], "github.com/ibm-cloud-security/app-identity-and-access-adapter/cmd"], cwd=src, env=env).returncode:
            sys.exit(1)
    env["TMPDIR"] = env["HOME"] = t
    sys.exit(subprocess.run([os.path.join(t, "demo")], cwd=t, env=env, timeout=280).returncode)
