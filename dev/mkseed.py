#!/usr/bin/env python3
"""Development helper: turn the entries of a seeds file into /verif/seeded/<id>/, after confirming each in a scratch copy
(applies, builds, stable tests pass, demo passes on the base and fails with the change).
usage: mkseed.py FILE [ID ...]"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, timeout=400, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, capture_output=True, text=True, env=env)


def stable():
    b = base
    for k in ("passed", "stable", "tests"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    # edit /repo itself under git, restore afterwards
    assert sh("git status --porcelain", "/repo").stdout.strip() == "", "repo dirty"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (s["id"], f, t.count(old), old[:60])
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd="/repo", capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\ncd /repo || exit 2\nexport OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec timeout 280 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'.replace('cd /repo || exit 2\n', ''))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("bash /opt/vp/build.sh", "/repo")
        r = sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
        res = json.load(open("/tmp/seedtest.json"))
        failed = stable() - set(res["passed"])
        db = sh("bash " + os.path.join(d, "demo.sh"), "/repo")
        bad = db.returncode
        out1 = (db.stdout + db.stderr).strip().splitlines()[-1:]
    finally:
        sh("git checkout -- .", "/repo")
    sh("bash /opt/vp/build.sh", "/repo")
    dg = sh("bash " + os.path.join(d, "demo.sh"), "/repo")
    good = dg.returncode
    okk = not failed and bad != 0 and good == 0
    print(s["id"], s["property"], "OK" if okk else "REJECTED", "failed tests:", len(failed), "demo patched:", bad, "base:", good, out1)
    if not okk:
        print((dg.stdout + dg.stderr)[-500:] if good else "", list(failed)[:3])
        shutil.rmtree(d)
