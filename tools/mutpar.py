#!/usr/bin/env python3
"""Development aid: like mut.py for many files at once, on several cores, with
a private copy of the checker.  usage: mutpar.py [-q] FILE.py...  (-q: only the
mutations that must stay quiet; they are run against every check)"""
import subprocess, sys, os, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
args = sys.argv[1:]
quiet = "-q" in args
files = [a for a in args if a != "-q"]
W = int(os.environ.get("WORKERS", "6"))
tmp = tempfile.mkdtemp(prefix="navpar")
nav = tmp + "/nav"
shutil.copy("/verif/bin/nav", nav)
allids = [l.split("\t")[0] for l in subprocess.run([nav, "list"], capture_output=True, text=True).stdout.splitlines() if l]
jobs, seen = [], set()
for fn in files:
    for k, m in enumerate(runpy.run_path(fn)["MUTS"]):
        edits, exp = (m[0], m[1]) if len(m) == 2 else ([m[:3]], m[3])
        if quiet and exp != []: continue
        key = repr(edits)
        if key in seen: continue
        seen.add(key)
        jobs.append((os.path.basename(fn), k, edits, exp))
pool = Queue()
for w in range(W):
    d = "%s/w%d" % (tmp, w)
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(d + "/v/evidence"); shutil.copy("/verif/known-findings.json", d + "/v")
    pool.put(d)
def run(j):
    fn, k, edits, exp = j
    d = pool.get(); repo = d + "/repo"
    saved = {}
    tag = "%s#%d %s" % (fn, k, edits[0][0].split("/")[-1])
    try:
        for f, old, new in edits:
            p = repo + "/" + f
            s = open(p).read()
            saved.setdefault(p, s)
            if old not in s:
                return "NOMATCH %s %r" % (tag, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
        if b.returncode:
            return "NOBUILD %s %s" % (tag, b.stderr[:300])
        ids = exp if exp else os.environ.get("IDS", "").split() or allids
        try:
            out = subprocess.run([nav] + ids, env=dict(os.environ, NAV_REPO=repo, NAV_VERIF=d + "/v"), capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return "ALARM TIMEOUT %s" % tag
        hit = [l.split("property=")[1].split()[0] for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = (set(exp) <= set(hit)) if exp else (hit == [] if exp == [] else True)
        r = "%s %s %r -> %s" % ("ok  " if ok else "MISS" if exp else "ALARM", tag, edits[0][2][:60], hit)
        if not ok:
            r += "".join("\n        " + l[:240] for l in out.stdout.splitlines() if ": [" in l)
        return r
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)
        pool.put(d)
try:
    with ThreadPoolExecutor(W) as ex:
        for r in ex.map(run, jobs):
            print(r, flush=True)
finally:
    shutil.rmtree(tmp)
