#!/usr/bin/env python3
"""Development helper: run checks against a planted change.  usage: catch.py [-a] ID ...   (-a: all checks, else only its property's)"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
allids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
ids = [next(x for x in allids if x == i or x.startswith(i + "-")) for i in ids]
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def one(i):
    d = tempfile.mkdtemp(prefix="catch")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff" % (d, d, ROOT, i), shell=True, check=True)
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    res = []
    for c in (checks if allc else [meta["property"]]):
        v = tempfile.mkdtemp(prefix="cv")
        subprocess.run("cp -r %s/run.py %s/sa %s/checks %s/known_findings.txt %s/spec %s/" % (ROOT, ROOT, ROOT, ROOT, ROOT, v), shell=True)
        p = subprocess.run(["timeout", "900", "python3-vt", "-W", "ignore", "run.py", c, "--repo", d], cwd=v, capture_output=True, text=True)
        res.append((c, p.returncode, p.stdout.strip().splitlines()[:4]))
        shutil.rmtree(v)
    shutil.rmtree(d)
    return i, meta["property"], res


with ThreadPoolExecutor(6) as ex:
    for i, p, res in ex.map(one, ids):
        own = [r for r in res if r[0] == p]
        hit = [r[0] for r in res if r[1] == 1]
        print(i, p, "CAUGHT" if own and own[0][1] == 1 else ("caught-by-other " if hit else "MISSED rc=%s" % (own and own[0][1])), hit if allc else "", "" if hit else own and own[0][2][-1:])
