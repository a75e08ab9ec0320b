#!/usr/bin/env python3
"""Development helper: mechanical mutants of some functions against one check (no tests run).
usage: mutone.py CHECK FILE FUNC[,FUNC] [N] [WORKERS]"""
import ast, os, random, shutil, subprocess, sys, multiprocessing as mp, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
HERE = mutate.HERE


def work(job):
    c, f, kind, ln, m, old, new = job
    w = mp.current_process()._identity[0]
    d = "/tmp/mutone/w%d" % w
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "doc", "perf_test"))
        shutil.copytree(HERE, d + "v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.makedirs(d + "v/evidence")
    p = os.path.join(d, "PyEMD", f)
    try:
        open(p, "wb").write(m)
        r = subprocess.run(["timeout", "200", "python3-vt", "-W", "ignore", d + "v/run.py", c, "--repo", d], capture_output=True, text=True)
        und = [l for l in r.stdout.splitlines() if l.startswith("OK")]
        return r.returncode, kind, ln, old.replace("\r\n", " ")[:70], new.replace("\r\n", " ")[:70], und[0].split("undecided=")[1].split()[0] if und else ""
    finally:
        shutil.copy(os.path.join("/repo/PyEMD", f), p)


if __name__ == "__main__":
    c, f, fn = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    path = os.path.join("/repo/PyEMD", f)
    rng = []
    for x in ast.walk(ast.parse(open(path).read())):
        if isinstance(x, ast.FunctionDef) and x.name in fn.split(","):
            rng.append((x.lineno, x.end_lineno))
    js = [(c, f) + m for m in mutate.mutants(path) if any(a <= m[1] <= b for a, b in rng)]
    random.Random(3).shuffle(js)
    js = js[:n]
    shutil.rmtree("/tmp/mutone", ignore_errors=True)
    res = {0: 0, 1: 0}
    with mp.Pool(int(sys.argv[5]) if len(sys.argv) > 5 else 6) as pool:
        for r in pool.imap_unordered(work, js):
            res[r[0]] = res.get(r[0], 0) + 1
            if r[0] != 1:
                print(*r)
    print(res)
