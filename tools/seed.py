#!/usr/bin/env python3
"""seed.py FILE...: makes seeded/<id> from a description (tools/seeds/<id>.py with id, prop, edits, pkg, needs, breaks, demo),
confirms it in a scratch copy and tells which checks catch it (seed.py --check ID... repeats the last part)."""
import json, os, subprocess, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Runs the test beside this file in the package of the working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov="$(mktemp)"
trap 'rm -f "$ov"' EXIT
printf '{"Replace": {"%%s/pkg/%s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$ov"
DATABASE_URL=postgres://nobody@localhost:1/x timeout 250 go test -overlay "$ov" -vet=off -count=1 -timeout 200s -run '^TestSeededDemo$' ./pkg/%s
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **kw)
def make(f):
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(root, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        run(f"cp -a /repo {tmp}/repo", "/")
        repo = tmp + "/repo"
        for fn, old, new in d["edits"]:
            p = os.path.join(repo, fn)
            s = open(p).read()
            assert s.count(old) == 1, (d["id"], fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = run("git diff", repo).stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(d.get("demo_sh") or DEMO % (d["pkg"], d["pkg"]))
        os.chmod(out + "/demo.sh", 0o755)
        if "demo" in d:
            open(out + "/demo_test.go.txt", "w").write(d["demo"].lstrip())
        json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
        # confirm
        r = run("go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", repo)
        ok = r.returncode == 0
        pk = "./pkg/cli ./pkg/pg ./pkg/server"
        t = run(f"unshare -Urn sh -c 'ip link set lo up; go test -vet=off -count=1 -timeout 100s {pk}' 2>&1 | grep -E '^(---|\\s+---) FAIL' | grep -v TestConfigDistributorGet", repo).stdout
        dm = run(f"bash {out}/demo.sh", repo)
        d0 = run(f"bash {out}/demo.sh", "/repo")
        print(f"{d['id']}: builds {ok}, failing tests [{t.strip()}], demo with {dm.returncode}, without {d0.returncode}")
        if d0.returncode != 0: print(d0.stdout[-1500:], d0.stderr[-1500:])
        if dm.returncode == 0: print(dm.stdout[-800:])
        return d["id"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def check(i, props):
    p = f"{root}/seeded/{i}/patch.diff"
    props = props or [json.load(open(f"{root}/seeded/{i}/meta.json"))["property"]]
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        run(f"cp -a /repo {tmp}/repo", "/")
        a = run(f"git apply {p}", tmp + "/repo")
        assert a.returncode == 0, a.stderr
        for q in props:
            r = subprocess.run(f"{root}/bin/gv check {q}", shell=True, env=dict(ENV, GV_REPO=tmp + "/repo"), cwd=root, capture_output=True, text=True)
            print(f"   {i} {q}: exit {r.returncode}:", " | ".join(r.stdout.strip().split("\n")[-4:])[:700], r.stderr[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--check":
        for a in args[1:]: check(a, None)
    else:
        for a in args:
            check(make(a), None)
