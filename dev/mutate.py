#!/usr/bin/env python3
"""Development helper: mechanical mutants of the package, kept when the tests still pass, then run through the checks.
usage: mutate.py OUT.jsonl [-w WORKERS] [-n MAX] [-f FILE,FILE] [-c C01,..]"""
import warnings
warnings.simplefilter("ignore")
import ast, json, os, random, shutil, subprocess, sys, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["EMD.py", "EEMD.py", "CEEMDAN.py", "EMD2d.py", "BEMD.py", "EMD_matlab.py", "utils.py", "visualisation.py", "checks.py", "compact.py", "splines.py", "experimental/jitemd.py"]
SW = [("max_pos", "min_pos"), ("max_val", "min_val"), ("max_extrema", "min_extrema"), ("ind_max", "ind_min"), ("end_max", "end_min"), ("lmax", "lmin"), ("rmax", "rmin"), ("range_thr", "total_power_thr"),
      ("eMax", "eMin"), ("imf", "imf_old"), ("residue", "S"), ("noise_scale", "epsilon")]


def mutants(path):
    raw = open(path, newline="").read()
    tree = ast.parse(raw)
    lines = raw.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = raw.encode()
    pos = lambda ln, c: off[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    src = lambda n: b[slice(*span(n))].decode()
    out = []

    def add(kind, n, new, sp=None):
        a, z = sp or span(n)
        out.append((kind, n.lineno, a, z, new))
    doc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef, ast.Module)) and f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            doc.add(f.body[0])
    main = [n for n in tree.body if isinstance(n, ast.If) and "__main__" in src(n)]
    skip = set()
    for m in main + list(doc):
        skip |= set(ast.walk(m))
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if n in skip or not hasattr(n, "lineno"):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                t = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), [])
                for o in t:
                    add("cmp " + o, n, " %s " % o, (span(l)[1], span(r)[0]) if b[span(l)[1]:span(r)[0]].strip().isalpha() or True and b")" not in b[span(l)[1]:span(r)[0]] and b"(" not in b[span(l)[1]:span(r)[0]] else None) if b"(" not in b[span(l)[1]:span(r)[0]] and b")" not in b[span(l)[1]:span(r)[0]] else None
            if isinstance(n, ast.BinOp):
                o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
                gap = b[span(n.left)[1]:span(n.right)[0]]
                if o and b"(" not in gap and b")" not in gap:
                    add("op " + o, n, " %s " % o, (span(n.left)[1], span(n.right)[0]))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add("const+1", n, repr(n.value + 1))
                if n.value == 1:
                    add("const-1", n, "0")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add("bool", n, repr(not n.value))
            if isinstance(n, ast.BoolOp):
                o = "and" if isinstance(n.op, ast.Or) else "or"
                add("boolop", n, " %s " % o, (span(n.values[0])[1], span(n.values[1])[0])) if not any(c in b[span(n.values[0])[1]:span(n.values[1])[0]] for c in b"()") else None
                add("drop operand", n, src(n.values[0]))
                add("drop operand", n, src(n.values[-1]))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
                add("drop unary", n, "(" + src(n.operand) + ")")
            if isinstance(n, ast.If):
                add("if true", n.test, "True")
                add("if false", n.test, "False")
            if isinstance(n, ast.While):
                add("while", n.test, "False")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                s = src(n)
                if "logger" not in s:
                    add("del", n, "pass")
            if isinstance(n, ast.AugAssign):
                o = {ast.Add: "-=", ast.Sub: "+="}.get(type(n.op))
                if o:
                    add("aug", n, "%s %s %s" % (src(n.target), o, src(n.value)))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and "logger" not in src(n.func):
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    s = src(n)
                    a0 = span(n)[0]
                    s = b[a0:span(x)[0]] + src(y).encode() + b[span(x)[1]:span(y)[0]] + src(x).encode() + b[span(y)[1]:span(n)[1]]
                    add("swap args", n, s.decode())
            if isinstance(n, ast.Call) and n.keywords:
                for k in n.keywords:
                    if k.arg:
                        a, z = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                        while b[a - 1:a] in (b" ", b"\n", b"\r"):
                            a -= 1
                        if b[a - 1:a] == b",":
                            add("drop kw", n, "", (a - 1, z))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "lower"):
                add("drop ." + n.func.attr, n, src(n.func.value))
            if isinstance(n, ast.Call) and len(n.args) == 1 and src(n.func) in ("np.abs", "abs", "np.sort", "np.round", "np.diff"):
                add("drop call", n, "(" + src(n.args[0]) + ")")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for p, q in SW:
                    if n.id == p:
                        add("name", n, q)
                    elif n.id == q:
                        add("name", n, p)
            if isinstance(n, ast.Slice):
                if n.step is not None and src(n.step) == "-1" and n.lower is None and n.upper is None:
                    add("drop reverse", n, ":")
    seen = set()
    for kind, ln, a, z, new in out:
        m = b[:a] + new.encode() + b[z:]
        if m in seen or m == b:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        yield kind, ln, m, b[a:z].decode()[:80], new[:80]


def work(job):
    f, kind, ln, m, old, new, checks = job
    w = mp.current_process()._identity[0]
    d = "/tmp/mut/w%d" % w
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "doc", "perf_test"))
    vd = "/tmp/mut/v%d" % w
    if not os.path.isdir(vd):
        shutil.copytree(HERE, vd, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.makedirs(vd + "/evidence")
    p = os.path.join(d, "PyEMD", f)
    orig = open(os.path.join("/repo/PyEMD", f), "rb").read()
    res = dict(file=f, kind=kind, line=ln, old=old, new=new)
    try:
        open(p, "wb").write(m)
        env = dict(os.environ, OMP_NUM_THREADS="1", MPLBACKEND="Agg", NUMBA_CACHE_DIR=d + "/nc", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(["timeout", "-k", "5", "90", "/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "PyEMD/tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
            tail = r.stdout.strip().splitlines()[-1:] or [""]
            res["tests"] = "pass" if r.returncode == 0 else "fail"
        except subprocess.TimeoutExpired:
            res["tests"] = "fail"
        if res["tests"] == "pass":
            res["caught"], res["noanswer"] = [], []
            fast = "C29 C13 C15 C11 C16 C07 C08 C32 C27 C12 C21 C20 C10 C06 C02 C09 C01 C03 C22".split()
            for c in sorted(checks, key=lambda c: fast.index(c) if c in fast else 99):
                if res["caught"] and "ALL" not in os.environ:
                    break
                try:
                    r = subprocess.run(["timeout", "-k", "5", "300", "python3-vt", "-W", "ignore", vd + "/run.py", c, "--repo", d], capture_output=True, text=True, timeout=320, cwd=d)
                    if r.returncode == 1:
                        res["caught"].append(c)
                    elif r.returncode != 0:
                        res["noanswer"].append(c)
                except subprocess.TimeoutExpired:
                    res["noanswer"].append(c)
    finally:
        open(p, "wb").write(orig)
    return res


if __name__ == "__main__":
    a = sys.argv[1:]
    out = a.pop(0)
    opt = dict(zip(a[::2], a[1::2]))
    files = opt.get("-f", "").split(",") if "-f" in opt else FILES
    man = json.load(open(HERE + "/MANIFEST.json"))
    checks = opt.get("-c", "").split(",") if "-c" in opt else [c["property"] if "property" in c else c["id"] for c in man["checks"]]
    jobs = []
    for f in files:
        for kind, ln, m, old, new in mutants(os.path.join("/repo/PyEMD", f)):
            jobs.append((f, kind, ln, m, old, new, checks))
    random.Random(int(opt.get("-s", 1))).shuffle(jobs)
    jobs = jobs[: int(opt.get("-n", 10 ** 6))]
    print(len(jobs), "mutants")
    with mp.Pool(int(opt.get("-w", 5))) as pool, open(out, "w") as fo:
        for r in pool.imap_unordered(work, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
