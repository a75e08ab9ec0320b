from .common import *
from .points import confirmed
from sa.program import Program
from fractions import Fraction

EXPLANATION = ("The verdict for each component is extracted as a term over the component, the reference component, the length and alpha, brought to a normal form for logarithms, "
               "exponentials and roots, and compared with the published formula (spec/spec/noise.py).")
R_PRI = "a priori: significant exactly when |ln density + ln period| exceeds z(alpha) sqrt(2/N) sqrt(period)"
R_POST = "a posteriori: densities rescaled so that the reference component lies on the upper limit; significant exactly when above the upper limit"
R_KEY = "one entry for every component, numbered from 1"
R_NONE = "None exactly for empty input or input with NaN"
R_HELP = "the public helper computes the documented quantity"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
W = "PyEMD.checks.whitenoise_check"
Z = sym("z(alpha)")
KNOWN = ("scipy.signal.find_peaks", "np.log", "np.sqrt", "np.exp", "scipy.stats.norm.ppf")
RANGES = {Z: lambda d: (1 + d(300)) / 100, sym("N"): lambda d: 1 + d((5, 40, 600)[d(3)])}


def mono(x):
    """(coefficient, {atom: exponent}) when x is a single product, else None."""
    p = t.as_poly(x)
    if len(p) != 1:
        return None
    (m, c), = p.items() if isinstance(p, dict) else p
    return c, dict(m)


def power(a, e):
    if e == 0:
        return ONE
    return t.power(a, e) if hasattr(t, "power") else t.pow_(a, e)


def norm(x, N):
    memo = {}

    def go(y):
        if y in memo:
            return memo[y]
        z = y
        if y.op == "app" and y.args[0] == "len" and len(y.args) == 2 and y.args[1].op == "idx" and y.args[1].args[0] is sym("IMFs"):
            memo[y] = N
            return N
        if y.op == "idx" and y.args[0].op == "app" and y.args[0].args[0] == "shape" and y.args[0].args[1] is sym("IMFs") and y.args[1] is ONE:
            memo[y] = N
            return N
        z = t.rebuild(y, go) if any(isinstance(a, t.Term) for a in y.args) or y.op == "poly" else y
        if z.op == "sumrows" and len(z.args) == 1:
            z = app("np.sum", z.args[0])
        if z.op == "app" and len(z.args) >= 2:
            f, a = z.args[0], z.args[1]
            if f in ("np.log", "np.exp", "np.sqrt", "np.abs", "abs") and isinstance(a, t.Term) and a.op == "ite":
                z = t.ite(a.args[0], go(app(f, a.args[1])), go(app(f, a.args[2])))
            elif f == "np.log":
                z = log(a)
            elif f == "np.exp":
                z = exp(a)
            elif f == "np.sqrt":
                z = root(a)
            elif f in ("np.abs", "abs") and a in (Z, t.neg(Z)):
                z = Z
            elif f == "scipy.stats.norm.ppf" and len(z.args) == 2:
                if t.sub(a, t.mul(num(Fraction(1, 2)), t.sub(ONE, sym("alpha")))) is ZERO:
                    z = t.neg(Z)
                elif t.sub(a, t.mul(num(Fraction(1, 2)), t.add(ONE, sym("alpha")))) is ZERO:
                    z = Z
        memo[y] = z
        return z

    def log(a):
        m = mono(a)
        if m is None or m[0] <= 0:
            return app("np.log", a)
        c, fs = m
        out = app("np.log", num(c)) if c != 1 else ZERO
        for b, e in fs.items():
            if b.op == "app" and b.args[0] == "np.exp":
                l = b.args[1]
            elif b.op == "app" and b.args[0] == "np.sqrt":
                l = t.mul(num(Fraction(1, 2)), app("np.log", b.args[1]))
            else:
                l = app("np.log", b)
            out = t.add(out, t.mul(num(e), l))
        return out

    def exp(a):
        out, rest = ONE, ZERO
        for m, c in terms(a):
            m = dict(m)
            if len(m) == 1:
                (b, e), = m.items()
                if b.op == "app" and b.args[0] == "np.log" and e == 1 and (2 * c).denominator == 1:
                    out = t.mul(out, half(b.args[1], 2 * c))
                    continue
            rest = t.add(rest, t.mul(num(c), prod(m)))
        return out if rest is ZERO else t.mul(out, app("np.exp", rest))

    def half(b, k):
        """b ** (k/2)"""
        k = int(k)
        out = b if k >= 2 else ONE
        q, r = divmod(k, 2)
        out = prod({b: q}) if q else ONE
        return t.mul(out, app("np.sqrt", b)) if r else out

    def root(a):
        m = mono(a)
        if m is None or m[0] <= 0:
            return app("np.sqrt", a)
        c, fs = m
        out = app("np.sqrt", num(c)) if c != 1 else ONE
        for b, e in fs.items():
            if b.op == "app" and b.args[0] == "np.exp":
                out = t.mul(out, exp(t.mul(num(Fraction(e, 2)), b.args[1])))
            else:
                out = t.mul(out, half(b, e))
        return out
    return go(x)


def terms(a):
    p = t.as_poly(a)
    return list(p.items() if isinstance(p, dict) else p)


def prod(m):
    out = ONE
    for b, e in m.items():
        for _ in range(abs(int(e))):
            out = t.mul(out, b) if e > 0 else t.div(out, b)
    return out


def truth(x):
    """A 0/1 value as a condition."""
    while x.op == "app" and x.args[0] in ("cast", "bool", "int") and isinstance(x.args[-1], t.Term):
        x = x.args[1]
    if x.op == "ite":
        return t.or_(t.and_(x.args[0], truth(x.args[1])), t.and_(t.not_(x.args[0]), truth(x.args[2])))
    if x.op == "num" and x.args[0] in (0, 1):
        return TRUE if x.args[0] == 1 else FALSE
    return x


def parts(x):
    """(condition of None, dictionary term)"""
    if x.op == "ite":
        a, b = parts(x.args[1]), parts(x.args[2])
        c = x.args[0]
        return t.or_(t.and_(c, a[0]), t.and_(t.not_(c), b[0])), a[1] + [d for d in b[1] if d not in a[1]]
    if x is NONE:
        return TRUE, []
    return FALSE, [x]


def judge(rep, name, rule, wh, got, want):
    v, why = confirmed(got, want, extra=KNOWN, given=RANGES)
    if v == "equal":
        rep.ok(name, rule, wh, "equal to the formula")
    elif v == "different":
        rep.bad(name, rule, wh, why)
    else:
        rep.undecided(name, rule, wh, why)


def test(prog, sp, rep, tn):
    r = enter(prog, W, args=[arrin("IMFs", 2)], kw={"test_name": V(py(tn)), "alpha": scin("alpha"), "rescaling_imf": scin("ri")})
    rep.covered(r)
    wh = where(r)
    if r.returned is None:
        rep.undecided(tn, R_KEY, wh, "no returned value")
        return
    cond, ds = parts(r.returned)
    IM = sym("IMFs")
    empty = t.or_(t.eq0(app("len", IM)), t.eq0(app("len", mk("idx", IM, ZERO))))
    judge(rep, tn + " None", R_NONE, wh, cond, t.or_(empty, app("np.any", app("np.isnan", IM))))
    ok = len(ds) == 1 and ds[0].op == "app" and ds[0].args[0] == "dictof" and ds[0].args[1].op == "comp"
    pair = ds[0].args[1].args[1] if ok else None
    if not ok or pair.op != "tuple" or len(pair.args) != 2:
        if len(ds) == 1 and ds[0].op == "app" and (ds[0].args[0] == "drows" and ds[0].args[1].op == "comp" or ds[0].args == ("dict",)):
            rep.bad(tn + " entries", R_KEY, wh, "the entries are numbered from 0" if ds[0].args[0] == "drows" else "the result is empty")
        else:
            rep.undecided(tn, R_KEY, wh, "returns %s" % t.show(r.returned, 3)[:160])
        return
    n = ds[0].args[1].args[0]
    key, val = pair.args
    bv = [y for y in t.walk(pair) if y.op == "bv"]
    if n is not app("len", IM) or len(set(bv)) != 1 or t.sub(key, ONE) is not bv[0]:
        plain = not unknown_atoms(n) and not unknown_atoms(key)
        (rep.bad if plain else rep.undecided)(tn + " entries", R_KEY, wh, "%s entries numbered %s" % (t.show(n, 3)[:80], t.show(key, 3)[:80]))
    else:
        rep.ok(tn + " entries", R_KEY, wh, "len(IMFs) entries, key i + 1")
    if len(set(bv)) != 1:
        return
    N = sym("N")
    X, REF = sym("x"), sym("ref")
    m = {mk("idx", IM, bv[0]): X, arr.idx(IM, t.sub(sym("ri"), ONE)): REF}
    got = t.subst(norm(truth(val), N), m)
    got = t.subst(got, {app("len", X): N, app("len", REF): N})
    if tn == "apriori":
        want = enter(sp, "spec.noise.apriori", args=[arrin("x"), V(N), scin("alpha")]).returned
    else:
        want = enter(sp, "spec.noise.aposteriori", args=[arrin("x"), arrin("ref"), V(N), scin("alpha")]).returned
    want = t.subst(norm(truth(want), N), {app("len", X): N, app("len", REF): N})
    few(rep, tn, wh, val, want, bv[0], IM, N, X, REF)
    own = t.eq0(t.sub(t.add(bv[0], ONE), sym("ri")))
    if tn == "aposteriori" and any(y is own for y in t.walk(got)):
        # the reference component itself may be treated apart: there x and ref are the same
        for b, sub in ((TRUE, {REF: X}), (FALSE, {})):
            judge(rep, tn + (" reference" if b is TRUE else " others"), R_POST, wh, t.subst(t.subst(got, {own: b}), sub), t.subst(want, sub))
        return
    if tn == "aposteriori":
        judge(rep, tn + " reference", R_POST, wh, t.subst(got, {REF: X}), t.subst(want, {REF: X}))
    judge(rep, tn + (" others" if tn == "aposteriori" else ""), R_PRI if tn == "apriori" else R_POST, wh, got, want)


def few(rep, tn, wh, val, want, b, IM, N, X, REF):
    """the same for each component of small sets, where positions and sizes are numbers"""
    rule = R_PRI if tn == "apriori" else R_POST
    bad = und = None
    n = 0
    for L in range(1, 6):
        for k in range(1, L + 1) if tn == "aposteriori" else (1,):
            for i in range(L):
                v = t.subst(truth(val), {b: num(i), sym("ri"): num(k), app("len", IM): num(L), arr.idx(app("shape", IM), ZERO): num(L)})
                v = norm(v, N)
                m = {arr.idx(IM, num(k - 1)): REF}
                m[arr.idx(IM, num(i))] = X
                m[arr.idx(IM, num(k - 1 - L))] = m[arr.idx(IM, num(k - 1))]
                m[arr.idx(IM, num(i - L))] = X
                v = t.subst(v, m)
                v = t.subst(v, {app("len", X): N, app("len", REF): N})
                w = t.subst(want, {REF: X}) if i == k - 1 else want
                r, why = confirmed(v, w, extra=KNOWN, given=RANGES)
                n += 1
                at = "component %d of %d%s" % (i + 1, L, ", reference %d" % k if tn == "aposteriori" else "")
                if r == "different":
                    bad = bad or "%s: %s" % (at, why)
                elif r != "equal":
                    und = und or "%s: %s" % (at, why)
    rep.verdict("bad" if bad else "undecided" if und else "ok", tn + " in sets of 1 to 5", rule, wh, bad or und or "%d components" % n)


def helpers(prog, sp, rep):
    N = sym("N")
    for name, spec, args in (("mean_period", "mean_period", [arrin("x")]), ("energy", "energy", [arrin("x")]),
                             ("significance_apriori", "priori", [scin("e"), scin("T"), V(N), scin("alpha")]), ("significance_aposteriori", "above", [scin("e"), scin("T"), V(N), scin("alpha")])):
        def go():
            r = enter(prog, "PyEMD.checks." + name, args=args)
            rep.covered(r)
            judge(rep, name, R_HELP, where(r), norm(truth(r.returned), N), norm(truth(enter(sp, "spec.noise." + spec, args=args).returned), N))
        rep.guard(name, R_HELP, go)


def check(prog, rep, tier):
    sp = Program(SPEC, "spec")
    for tn in ("apriori", "aposteriori"):
        rep.guard(tn, R_KEY, lambda: test(prog, sp, rep, tn))
    helpers(prog, sp, rep)
