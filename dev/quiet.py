#!/usr/bin/env python3
"""Development helper: apply behaviour-preserving edits in scratch copies; all checks must stay quiet.
usage: quiet.py FILE [-c C01,C02] [NAME ...]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
args = sys.argv[2:]
only = None
if "-c" in args:
    i = args.index("-c"); only = args[i + 1].split(","); del args[i:i + 2]
test = "-t" in args
args = [a for a in args if a != "-t"]
checks = only or [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]


def one(item):
    name, edits = item
    d = tempfile.mkdtemp(prefix="quiet")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            shutil.rmtree(d)
            return name, [("EDIT", s.count(old), [f, old[:50]])]
        open(p, "w", newline="").write(s.replace(old, new))
    res = []
    if test:
        p = subprocess.run("timeout 300 /opt/venv/bin/python -W ignore -m pytest -q -x PyEMD/tests 2>&1 | tail -2", shell=True, cwd=d, capture_output=True, text=True)
        if "failed" in p.stdout or "error" in p.stdout:
            res.append(("TEST", 1, p.stdout.strip().splitlines()))
    for c in checks:
        v = tempfile.mkdtemp(prefix="cv")
        subprocess.run("cp -r %s/run.py %s/sa %s/checks %s/known_findings.txt %s/spec %s/" % (ROOT, ROOT, ROOT, ROOT, ROOT, v), shell=True)
        p = subprocess.run(["timeout", "900", "python3-vt", "-W", "ignore", "run.py", c, "--repo", d], cwd=v, capture_output=True, text=True)
        out = p.stdout.strip().splitlines()
        if p.returncode != 0:
            res.append((c, p.returncode, out[:5] + p.stderr.strip().splitlines()[-2:]))
        elif "undecided=0" not in (out or [""])[-1]:
            res.append((c, "u", out[-1:]))
        shutil.rmtree(v)
    shutil.rmtree(d)
    return name, res


items = [x for x in ns["R"] if not args or x[0] in args]
with ThreadPoolExecutor(4) as ex:
    for name, res in ex.map(one, items):
        print(name, "quiet" if not res else "")
        for r in res:
            print("    ", r[0], r[1], " | ".join(x.strip()[:170] for x in r[2]))
        sys.stdout.flush()
