from .common import *
from .small import thresholds
from .unroll import Unroll, NoUnroll, OutOfRange, Undecided, Fill
from .opq import opaque
from fractions import Fraction

EXPLANATION = ("The tridiagonal systems the compact filter and the compact derivative set up are extracted row by row (diagonals and right-hand side as linear forms in the samples) and each row is judged by the order "
               "conditions that define the scheme; the solver's result, written out with symbolic coefficients, must satisfy every row of its system as an identity of rational functions.")
R_TDMA = "TDMAsolver: a_i x_(i-1) + b_i x_i + c_i x_(i+1) = d_i for every row, with a_0 and c_(n-1) unused"
R_FILT = "filt6: every row keeps polynomials (degree 5 inside, 3 in the three rows at each end) and removes the sawtooth; coefficients alpha, 1, alpha inside"
R_PADE = "pade6: every row is exact for polynomials up to degree 6"
R_SYM = "both ends are treated alike (mirror images of each other)"
R_TYPE = "the arrays results are computed in hold floating-point numbers, whatever the type of the input"
R_USE = "the result is the solution of the tridiagonal system set up"
M = "PyEMD.compact."


class Nonlinear(Exception):
    pass


def sized(v, n):
    v = v.sized(n) if isinstance(v, Fill) else v
    return v if isinstance(v, list) else [v] * n


def tdma(prog, rep, tier):
    r = enter(prog, M + "TDMAsolver", args=[arrin(x) for x in "abcd"])
    rep.covered(r)
    wh = where(r)
    top = 6 if tier == "quick" else 8
    for n in sorted(set(range(2, top + 1)) | {k for k in thresholds(r.returned, top=9) if k > 1}):
        vecs = {sym(x): [sym("%s_%d" % (x, i)) for i in range(n)] for x in "abcd"}
        a, b, c, d = (vecs[sym(x)] for x in "abcd")
        try:
            x = sized(Unroll(vecs, {}, r.I, fill=n)(r.returned), n)
            if len(x) != n:
                rep.bad("TDMAsolver", R_TDMA, wh, "%d unknowns for %d rows" % (len(x), n))
                return
            for i in range(n):
                lhs = t.mul(b[i], x[i])
                if i:
                    lhs = t.add(lhs, t.mul(a[i], x[i - 1]))
                if i < n - 1:
                    lhs = t.add(lhs, t.mul(c[i], x[i + 1]))
                if not t.is_zero(t.sub(lhs, d[i])):
                    rep.bad("TDMAsolver", R_TDMA, wh, "row %d of %d is not satisfied" % (i, n))
                    return
        except OutOfRange as e:
            rep.bad("TDMAsolver", R_TDMA, wh, "%d rows: %s" % (n, e))
            return
    rep.ok("TDMAsolver", R_TDMA, wh, "systems of 2..%d rows with symbolic coefficients, every row an identity" % top)


def system(prog, rep, qual, args):
    r = enter(prog, M + qual, args=args, opaque=solver(prog))
    rep.covered(r)
    v = r.returned
    while v is not None and v.op == "app" and v.args[0] in ("cast", "copy", "np.array", "np.asarray") and isinstance(v.args[1], t.Term):
        v = v.args[1]
    return r, v if v is not None and v.op == "app" and v.args[0] == "TDMA" and len(v.args) == 5 else None


def solver(prog):
    from sa.runs import bindargs
    f = get_func(prog, M + "TDMAsolver")

    def h(I, st, args, kw, node):
        env = bindargs(I, st, f, args, kw, node)
        x = app("TDMA", *[I.read(st, env[k]) for k in "abcd"])
        arr.RANK[x] = 1
        return I.newarr(st, x, 1, node=node)
    return {M + "TDMAsolver": h}


def linear(x, fs):
    """Coefficients of a linear form in fs, or None."""
    p = t.as_poly(x)
    out = {}
    for m, c in (p.items() if isinstance(p, dict) else p):
        m = dict(m)
        hit = [y for y in m if y in fs]
        if len(hit) != 1 or m[hit[0]] != 1:
            return None
        k = num(c)
        for y, e in m.items():
            if y is not hit[0]:
                k = t.mul(k, t.powi(y, int(e)))
        out[fs[hit[0]]] = t.add(out.get(fs[hit[0]], ZERO), k)
    return out


def rows(r, v, f, n, extra):
    fs = [sym("f_%d" % i) for i in range(n)]
    u = Unroll({f: fs}, extra, r.I, fill=n)
    a, b, c, d = (sized(u(x), n) for x in v.args[1:])
    pos = {s: i for i, s in enumerate(fs)}
    out = []
    for i in range(n):
        w = linear(d[i], pos)
        if w is None:
            raise (NoUnroll if unknown_atoms(d[i]) else Nonlinear)("right-hand side %s of row %d is not a combination of the samples" % (t.show(d[i], 3)[:80], i))
        D = {i: b[i]}
        if i:
            D[i - 1] = a[i]
        if i < n - 1:
            D[i + 1] = c[i]
        out.append((D, w))
    return out


def moment(co, i, k):
    """sum of c_j (j - i)^k"""
    s = ZERO
    for j, c in co.items():
        if k == 0 or j != i:
            s = t.add(s, t.mul(c, num(Fraction(j - i) ** k)))
    return s


def clean(co):
    return {j: c for j, c in co.items() if not t.is_zero(c)}


def symmetric(rs, n, sg):
    for i in range(n):
        for part, s in ((0, 1), (1, sg)):
            x, y = rs[i][part], rs[n - 1 - i][part]
            for j in set(x) | {n - 1 - k for k in y}:
                a, b = x.get(j, ZERO), y.get(n - 1 - j, ZERO)
                if not t.is_zero(t.sub(a, t.mul(num(s), b))):
                    return "rows %d and %d of %d" % (i, n - 1 - i, n)
    return None


def sizes(r, v, tier):
    """lengths read: the shortest ones, and those around every length a condition names"""
    return sorted(set(range(7, 11 if tier == "quick" else 15)) | {k for k in thresholds(v, top=70) if k > 6})


def bycases(fn, v, x):
    """fn with a symbolic parameter; when a condition on the parameter is in the way, with numbers from every region such conditions cut, which can only refute"""
    try:
        return fn(v, x)
    except (NoUnroll, Undecided) as e:
        ks = {Fraction(0), Fraction(1, 4), Fraction(-1, 4)}
        for y in t.walk(v):
            if y.op in ("lt0", "le0", "eq0"):
                p = dict(t.as_poly(y.args[0]))
                c = p.pop((), 0)
                if len(p) == 1 and next(iter(p)) == ((x, 1),):
                    ks.add(-Fraction(c) / next(iter(p.values())))
        ks = sorted(ks)
        pts = ks + [(a + b) / 2 for a, b in zip(ks, ks[1:])] + [ks[0] - 1, ks[-1] + Fraction(1, 8)]
        for k in [k for k in pts if k > 0 or x is not sym("h")]:
            try:
                bad = fn(t.subst(v, {x: num(k)}), num(k))
            except (NoUnroll, Undecided):
                continue
            if bad[0] or bad[1]:
                return tuple("%s = %s: %s" % (x.args[0], k, b) if b else b for b in bad)
        raise e


def filtrows(r, v, f, al, tier):
    bad, asym = None, None
    for n in sizes(r, v, tier):
        rs = rows(r, v, f, n, {app("len", f): num(n)})
        asym = asym or symmetric(rs, n, 1)
        for i, (D, w) in enumerate(rs):
            inner = 3 <= i < n - 3
            D, w = clean(D), clean(w)
            want = {i - 1: al, i: ONE, i + 1: al} if inner else {i: ONE}
            want = clean(want)
            if set(D) != set(want) or any(not t.is_zero(t.sub(D[j], want[j])) for j in want):
                bad = bad or "row %d of %d: coefficients %s" % (i, n, {j - i: t.show(c, 2) for j, c in D.items()})
                continue
            for k in range(6 if inner else 4):
                if not t.is_zero(t.sub(moment(D, i, k), moment(w, i, k))):
                    bad = bad or "row %d of %d changes polynomials of degree %d" % (i, n, k)
                    break
            s = ZERO
            for j, c in w.items():
                s = t.add(s, t.mul(num((-1) ** abs(j - i)), c))
            if not t.is_zero(s):
                bad = bad or "row %d of %d lets the sawtooth through" % (i, n)
    return bad, asym


def filt(prog, rep, tier):
    f, al = sym("f"), sym("alpha")
    r, v = system(prog, rep, "filt6", [arrin("f"), scin("alpha")])
    wh = where(r)
    if v is None:
        rep.undecided("filt6", R_USE, wh, "returns %s" % (t.show(r.returned, 2)[:100] if r.returned is not None else None))
        return
    bad, asym = bycases(lambda v, al: filtrows(r, v, f, al, tier), v, al)
    verdict(rep, "filt6 rows", R_FILT, wh, bad)
    verdict(rep, "filt6 ends", R_SYM, wh, asym)


def verdict(rep, name, rule, wh, bad):
    if bad:
        rep.bad(name, rule, wh, bad)
    else:
        rep.ok(name, rule, wh, "every row of systems of several lengths")


def paderows(r, v, f, h, tier):
    bad, asym = None, None
    for n in sizes(r, v, tier):
        rs = rows(r, v, f, n, {app("len", f): num(n)})
        asym = asym or symmetric(rs, n, -1)
        for i, (D, w) in enumerate(rs):
            w = {j: t.mul(c, h) for j, c in clean(w).items()}
            if not D.get(i) or t.is_zero(D[i]):
                bad = bad or "row %d of %d has no diagonal" % (i, n)
            for k in range(7):
                lhs = t.mul(num(k), moment(D, i, k - 1)) if k else ZERO
                if not t.is_zero(t.sub(lhs, moment(w, i, k))):
                    bad = bad or "row %d of %d is wrong for polynomials of degree %d" % (i, n, k)
                    break
    return bad, asym


def pade(prog, rep, tier):
    f, h = sym("vec"), sym("h")
    r, v = system(prog, rep, "pade6", [arrin("vec"), scin("h")])
    wh = where(r)
    if v is None:
        rep.undecided("pade6", R_USE, wh, "returns %s" % (t.show(r.returned, 2)[:100] if r.returned is not None else None))
        return
    bad, asym = bycases(lambda v, h: paderows(r, v, f, h, tier), v, h)
    verdict(rep, "pade6 rows", R_PADE, wh, bad)
    verdict(rep, "pade6 ends", R_SYM, wh, asym)


def held(rep, f):
    """Arrays allocated in the type of a parameter cut off fractions when the parameter holds integers."""
    import ast
    ps = {a.arg for a in f.node.args.args}
    given = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    ps -= given

    def plain(e):
        if isinstance(e, ast.Name):
            return e.id in ps
        if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("asarray", "array", "asanyarray", "copy") and len(e.args) == 1 and not e.keywords:
            return plain(e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
            return plain(e.func.value)
        return isinstance(e, ast.Subscript) and plain(e.value)
    n = 0
    for c in ast.walk(f.node):
        if not isinstance(c, ast.Call):
            continue
        g = ast.unparse(c.func).split(".")[-1]
        if g not in ("zeros", "empty", "full", "ones", "zeros_like", "empty_like", "full_like", "ones_like"):
            continue
        n += 1
        k = 2 if g.startswith("full") else 1
        d = next((x.value for x in c.keywords if x.arg == "dtype"), c.args[k] if len(c.args) > k else None)
        if isinstance(d, ast.Attribute) and d.attr == "dtype" and plain(d.value) or d is None and g.endswith("_like") and c.args and plain(c.args[0]):
            # allocations that are only scaled or added to keep no result
            p = next((a for a in ast.walk(f.node) if isinstance(a, ast.Assign) and a.value is c and isinstance(a.targets[0], ast.Name)), None)
            if p is None:
                continue
            name = p.targets[0].id
            st = next((a for a in ast.walk(f.node) if isinstance(a, (ast.Assign, ast.AugAssign)) for x in (a.targets if isinstance(a, ast.Assign) else [a.target])
                       if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name and any(isinstance(y, ast.Div) for y in ast.walk(a.value))), None)
            if st is not None:
                rep.bad(f.qual, R_TYPE, "%s:%d %s" % (f.module.rel, c.lineno, f.qual), "%s has the type of the input; the quotient stored in line %d loses its fraction for integer input" % (name, st.lineno))
                return
    rep.ok(f.qual, R_TYPE, "", "%d allocations" % n)


def check(prog, rep, tier):
    for f in prog.functions():
        if f.module.name == "PyEMD.compact" and f.name in ("TDMAsolver", "filt6", "pade6"):
            held(rep, f)
    for name, rule, f in (("TDMAsolver", R_TDMA, tdma), ("filt6", R_FILT, filt), ("pade6", R_PADE, pade)):
        def go():
            try:
                f(prog, rep, tier)
            except (Nonlinear, OutOfRange) as e:
                rep.bad(name, rule, "PyEMD/compact.py", str(e))
            except (NoUnroll, Undecided) as e:
                rep.undecided(name, rule, "", str(e))
        rep.guard(name, rule, go)
