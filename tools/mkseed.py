#!/usr/bin/env python3
"""Development aid: build and confirm planted bugs.
usage: mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks)].
`test` is Go source of a test file placed (through an overlay) in package
directory `pkg`.  Each seed is confirmed in a scratch copy: the patch
applies to HEAD, builds, the stable tests pass, the demo passes without it
and fails with it.  Then the checks are run against it."""
import subprocess, sys, os, shutil, tempfile, runpy, json
spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# Runs a test of package {pkg}, laid over the tree, from the repository root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r -- "$tmp"' EXIT
export HOME=${{HOME:-/root}} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
cp go.mod "$tmp/demo.mod" && cp go.sum "$tmp/demo.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/demo.mod"
cat > "$tmp/overlay.json" <<EOF
{{"Replace": {{"$repo/{pkg}/zz_demo_test.go": "$here/demo_test.go.txt"{hide}}}}}
EOF
export TMPDIR="$tmp"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' {flags}./{pkg}
'''
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on")
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=dict(env, **k))
def tests(repo):
    shutil.copy(repo + "/go.mod", tmp + "/t.mod"); shutil.copy(repo + "/go.sum", tmp + "/t.sum")
    fl = "-mod=mod -modfile=%s/t.mod" % tmp
    r = sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v '/internal/db/memory$') > %s/log" % tmp, repo, GOFLAGS=fl)
    res = {}
    for l in open(tmp + "/log"):
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Test") and d["Action"] in ("pass", "fail", "skip"):
            res[(d["Package"], d["Test"])] = d["Action"]
    return res
tmp = tempfile.mkdtemp(prefix="navseed")
repo = tmp + "/repo"
try:
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    base = None
    allids = [l.split("\t")[0] for l in sh(["/verif/bin/nav", "list"], "/verif").stdout.splitlines() if l]
    for s in spec:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- . && git clean -fdq", repo)
        bad = None
        for f, old, new in s["edits"]:
            p = repo + "/" + f; t = open(p).read()
            if t.count(old) < 1: bad = "NOMATCH %s %r" % (f, old[:50]); break
            open(p, "w").write(t.replace(old, new, 1))
        if bad: print(s["id"], bad); continue
        diff = sh("git diff", repo).stdout
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(s.get("demo") or DEMO.format(pkg=s["pkg"], hide="".join(', "'+"$repo/"+h+'": ""' for h in s.get("hide", [])), flags=s.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        msg = []
        r = sh("go build ./...", repo)
        if r.returncode: msg.append("NOBUILD " + r.stderr[:300])
        else:
            r1 = sh(["bash", d + "/demo.sh"], repo)
            if r1.returncode == 0: msg.append("DEMO PASSES WITH PATCH")
            elif "--- FAIL" not in r1.stdout and "panic" not in r1.stdout + r1.stderr: msg.append("demo odd: " + (r1.stdout + r1.stderr)[:400])
            if base is None:
                sh("git stash -q", repo); base = tests(repo); sh("git stash pop -q", repo)
            res = tests(repo)
            lost = [k for k, v in base.items() if v == "pass" and res.get(k) != "pass"]
            if lost: msg.append("TESTS LOST %s" % lost[:3])
            os.makedirs(tmp + "/v/evidence", exist_ok=True); shutil.copy("/verif/known-findings.json", tmp + "/v")
            out = sh(["/verif/bin/nav"] + allids, "/verif", NAV_REPO=repo, NAV_VERIF=tmp + "/v")
            hit = [l.split("property=")[1].split()[0] for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
        sh("git checkout -q -- .", repo)
        if not msg:
            r0 = sh(["bash", d + "/demo.sh"], repo)
            if r0.returncode: msg.append("DEMO FAILS CLEAN: " + (r0.stdout + r0.stderr)[:600])
        if msg:
            print(s["id"], "BAD", msg); 
            if not os.environ.get("KEEP"): shutil.rmtree(d)
        else:
            print(s["id"], "ok", s["prop"], "caught by", hit, "" if s["prop"] in hit else "<<< MISSED")
finally:
    shutil.rmtree(tmp)
