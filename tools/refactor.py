#!/usr/bin/env python3
"""refactor.py FILE...: applies edits that keep the behaviour (tools/refactors/*.py with edits=[(file, old, new)]) to a
scratch copy, builds and tests it and verifies every unit; nothing may be reported."""
import os, subprocess, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(ENV, **kw), capture_output=True, text=True)
for f in sys.argv[1:]:
    d = {"props": []}
    exec(open(f).read(), d)
    tmp = tempfile.mkdtemp(prefix="refac")
    try:
        run(f"cp -a /repo {tmp}/repo", "/")
        for fn, old, new in d["edits"]:
            p = os.path.join(tmp, "repo", fn)
            s = open(p).read()
            assert s.count(old) == 1, (f, fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        b = run("go build ./...", tmp + "/repo")
        t = run("go test -vet=off -count=1 ./pkg/cli ./pkg/pg ./pkg/server 2>&1 | grep -E '^(---|\\s+---) FAIL' | grep -v TestConfigDistributorGet", tmp + "/repo").stdout
        print(f"{os.path.basename(f)}: build {b.returncode} {b.stderr[:500]} failing tests [{t.strip()}]", flush=True)
        if b.returncode: continue
        for q in d["props"]:
            r = run(f"{root}/bin/gv check {q}", root, GV_REPO=tmp + "/repo")
            print(f"   {q}: exit {r.returncode}:", " | ".join(r.stdout.strip().split("\n")[-6:])[:1200], r.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
