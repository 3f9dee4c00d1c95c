#!/usr/bin/env python3
"""Development aid: apply textual mutations in a scratch copy of /repo and
show which checks report them.  usage: mut.py FILE.py  (defines MUTS =
[(file, old, new, expected ids or None) or ([(file, old, new), ...], expected), ...]) [CHECK...]"""
import subprocess, sys, os, shutil, tempfile, runpy
muts = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:]
tmp = tempfile.mkdtemp(prefix="navmut")
repo = tmp + "/repo"; v = tmp + "/v"
shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
os.makedirs(v + "/evidence"); shutil.copy("/verif/known-findings.json", v)
env = dict(os.environ, NAV_REPO=repo, NAV_VERIF=v)
allids = [l.split("\t")[0] for l in subprocess.run(["/verif/bin/nav", "list"], capture_output=True, text=True).stdout.splitlines() if l]
try:
    for m in muts:
        # (file, old, new, expected) or ([(file, old, new), ...], expected)
        edits, exp = (m[0], m[1]) if len(m) == 2 else ([m[:3]], m[3])
        saved, bad = {}, False
        for f, old, new in edits:
            p = repo + "/" + f
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                print("NOMATCH", f, repr(old[:60])); bad = True; break
            open(p, "w").write(s.replace(old, new, 1))
        if bad:
            for p, s in saved.items():
                open(p, "w").write(s)
            continue
        b = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
        if b.returncode:
            print("NOBUILD", f, b.stderr[:300])
        else:
            ids = only or (allids if exp is None or exp == [] else exp)
            out = subprocess.run(["/verif/bin/nav"] + ids, env=env, capture_output=True, text=True)
            hit = [l.split("property=")[1].split()[0] for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = (set(exp) <= set(hit)) if exp else (hit == [] if exp == [] else True)
            print("ok  " if ok else "MISS" if exp else "ALARM", f.split("/")[-1], repr(new[:70]), "->", hit)
            if not ok or "-v" in os.environ.get("MUTV", ""):
                for l in out.stdout.splitlines():
                    if ": [" in l: print("      ", l[:220])
        for p, s in saved.items():
            open(p, "w").write(s)
finally:
    shutil.rmtree(tmp)
