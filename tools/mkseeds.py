#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each
in a scratch copy of /repo: builds, passes the listed packages' tests, the demonstration
passes without and fails with the change.   usage: mkseeds.py [--no-verify] [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, "..", "seeded")
S = {}
def seed(id, prop, pkg, edits, demo, needs, breaks, flags="", runs=1, tests="./..."):
    assert id not in S, id
    S[id] = dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, tests=tests)
for f in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
DEMO = '''#!/bin/bash
# run in the repository; exits 0 if the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp go.mod "$t/m.mod"; cp go.sum "$t/m.sum"
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
GOFLAGS="-mod=mod -modfile=$t/m.mod" go test -vet=off @FLAGS@ -overlay "$t/o.json" -run '^TestZZDemo' -count=1 -timeout 120s ./@PKG@
'''
def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
verify = "--no-verify" not in sys.argv
bad = 0
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    r = w + "/r"
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    for id, s in S.items():
        if args and id not in args: continue
        sh("git checkout -q -- . && git clean -fdq", r)
        d = os.path.join(out, id)
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, a, b in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(a) != 1:
                print(id, "EDIT does not apply:", f, t.count(a)); ok = False; break
            open(r + "/" + f, "w").write(t.replace(a, b))
        if not ok: bad += 1; continue
        sh("gofmt -l .", r, env)
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@FLAGS@", s["flags"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        if not verify: continue
        p = sh("go build ./... && go vet ./%s" % s["pkg"], r, env)
        msgs = []
        if sh("go build ./...", r, env).returncode: msgs.append("does not build\n" + p.stdout)
        x = sh(d + "/demo.sh", r, env)
        if x.returncode == 0: msgs.append("demo passes with the change")
        elif "build failed" in x.stdout or "setup failed" in x.stdout: msgs.append("demo does not build\n" + x.stdout)
        t = sh("go test -vet=off -count=1 -p 2 ./%s/..." % s["pkg"].split("/")[0], r, env)
        if t.returncode: msgs.append("existing tests fail:\n" + "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l or "---" in l)[:600])
        sh("git checkout -q -- .", r)
        for i in range(3 if s["flags"] else 1):
            y = sh(d + "/demo.sh", r, env)
            if y.returncode: msgs.append("demo fails without the change\n" + y.stdout[-1500:])
        print(id, "OK" if not msgs else "BAD " + "\n".join(msgs), flush=True)
        if msgs: bad += 1
finally:
    shutil.rmtree(w)
sys.exit(bad)
