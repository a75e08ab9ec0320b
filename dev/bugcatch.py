#!/usr/bin/env python3
"""Development helper: run the property's check (-a: all on a miss; -t: tests too) on each change of a list.  usage: bugcatch.py FILE [-a] [-t] [N ...]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = [int(a) for a in sys.argv[2:] if a.isdigit()]
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def run(c, d):
    v = tempfile.mkdtemp(prefix="cv")
    subprocess.run("cp -r %s/run.py %s/sa %s/checks %s/known_findings.txt %s/spec %s/" % (ROOT, ROOT, ROOT, ROOT, ROOT, v), shell=True)
    p = subprocess.run(["timeout", "600", "python3-vt", "-W", "ignore", "run.py", c, "--repo", d, "-v"], cwd=v, capture_output=True, text=True)
    shutil.rmtree(v)
    return p.returncode, p.stdout.splitlines()


def one(n):
    prop, f, old, new = ns["BUGS"][n][:4]
    d = tempfile.mkdtemp(prefix="bug")
    subprocess.run("cp -a /repo/PyEMD /repo/doc /repo/README.md /repo/pyproject.toml %s/" % d, shell=True)
    p = os.path.join(d, f)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    if crlf:
        s = s.replace("\r\n", "\n")
    if s.count(old) < 1:
        shutil.rmtree(d)
        return n, prop, "NOMATCH", new
    s = s.replace(old, new, 1)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    t = ""
    if "-t" in sys.argv:
        q = subprocess.run("cd %s && timeout 600 env PYTHONPATH=%s MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -x PyEMD/tests 2>&1 | tail -2" % (d, d), shell=True, capture_output=True, text=True)
        t = "tests FAIL " if "failed" in q.stdout or "error" in q.stdout else "tests ok "
    rc, out = run(prop, d)
    res = "CAUGHT" if rc == 1 else "missed rc=%s" % rc
    if rc != 1:
        und = [l for l in out if l.startswith("undecided")]
        res += " und=%d %s" % (len(und), und[0][:200] if und else "")
        if "-a" in sys.argv:
            res += " | others: " + " ".join(c for c in checks if c != prop and run(c, d)[0] == 1)
    shutil.rmtree(d)
    return n, prop, t + res, new


with ThreadPoolExecutor(5) as ex:
    for n, prop, res, new in ex.map(one, only or range(len(ns["BUGS"]))):
        print(n, prop, res, "" if "CAUGHT" in res else "<< " + (new.strip() or "-").splitlines()[0][:90], flush=True)
