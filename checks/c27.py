from .common import *
from .opq import opaque, merge
from .unroll import Unroll, NoUnroll, entries, same
from fractions import Fraction

EXPLANATION = ("Three-point spline: the two pieces are extracted as rational functions of the knots and of time, the linear system for the slopes is solved "
               "symbolically, and interpolation, C2 joining, natural ends and degree are polynomial identities. Interpolation calls, their data and their "
               "evaluation points, and the chain extrema -> extended extrema -> envelope are compared as terms with helper methods opaque.")
R_3PT = "cubic spline over three points: passes through the points, twice continuously differentiable, zero curvature at the ends, cubic on each side"
R_CUT = "the pieces are evaluated on the given times between the first and the last point, each time in exactly one piece, in order"
R_SP = "the envelope is the requested interpolant of the given points (times against values), evaluated on the times they span"
R_CH = "envelopes: locate the signal's extrema, extend each kind over the edges, interpolate; upper from maxima, lower from minima; fewer than 3 extrema: no envelopes"
R_2D = "surfaces: interpolation data are the extrema's coordinates with the image values at those pixels, evaluated at every pixel in the same coordinates"
R_BIG = "EMD2D extends the image to a 3x3 grid of its mirror images, the image itself in the centre"


class Vague(Exception):
    pass


def strip(x):
    while x.op == "app" and x.args[0] in ("cast", "copy", "np.array", "np.asarray"):
        x = x.args[-1]
    return x


# ------------------------------------------------------------------ linear systems of size 3
def vec(x):
    """The three entries of a vector term."""
    x = strip(x)
    while x.op == "app" and x.args[0] in ("np.transpose", "np.matrix", "transpose"):
        x = strip(x.args[1])
    if x.op == "stack" and len(x.args) == 3 and all(k == "row" for k, _ in x.args):
        return [y for _, y in x.args]
    raise Vague("vector %s" % t.show(x, 2)[:80])


def mat(x):
    x = strip(x)
    if x.op == "app" and x.args[0] == "np.matrix":
        x = strip(x.args[1])
    if x.op == "app" and x.args[0] in ("np.transpose", "transpose"):
        return [list(c) for c in zip(*mat(x.args[1]))]
    if x.op == "stack" and len(x.args) == 3 and all(k == "row" for k, _ in x.args):
        return [vec(y) for _, y in x.args]
    raise Vague("matrix %s" % t.show(x, 2)[:80])


def det(m):
    s = ZERO
    for p, sg in ((((0, 1, 2)), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1)):
        s = t.add(s, t.scale(t.mul(t.mul(m[0][p[0]], m[1][p[1]]), m[2][p[2]]), sg))
    return s


def cramer(M, v):
    d = det(M)
    out = []
    for j in range(3):
        m = [[v[i] if k == j else M[i][k] for k in range(3)] for i in range(3)]
        out.append(t.div(det(m), d))
    return out


def system(k):
    """(M, v) when the term k is the solution of M k = v."""
    k = strip(k)
    if k.op == "app" and k.args[0] == "np.linalg.solve" and len(k.args) == 3:
        return k.args[1], k.args[2]
    if k.op == "app" and k.args[0] in ("np.dot", "matmul", "np.matmul") and len(k.args) == 3:
        a, b = strip(k.args[1]), k.args[2]
        if a.op == "app" and a.args[0] == "np.linalg.inv":
            return a.args[1], b
    if k.op == "poly" and len(k.args[0]) == 1:
        m, c = k.args[0][0]
        if c == 1 and len(m) == 2 and all(e == 1 for _, e in m):
            for (a, _), (b, _) in (m, m[::-1]):
                if a.op == "app" and a.args[0] == "np.linalg.inv" and t.has(a, lambda z: z.op == "app" and z.args[0] == "np.matrix"):
                    return a.args[1], b
    return None


def slopes(x):
    m = {}
    for y in t.walk(x):
        if y.op != "idx":
            continue
        s = system(y.args[0])
        if s is None:
            continue
        i = y.args[1]
        if i.op == "tuple" and len(i.args) == 2 and i.args[1] is ZERO:
            i = i.args[0]
        if i.op != "num" or not -3 <= i.args[0] < 3:
            raise Vague("slope %s" % t.show(i, 2))
        m[y] = cramer(mat(s[0]), vec(s[1]))[int(i.args[0])]
    return t.subst(x, m) if m else x


def deriv(x, tau):
    if x is tau:
        return ONE
    if not t.has(x, lambda z: z is tau):
        return ZERO
    if x.op != "poly":
        raise Vague("derivative of %s" % t.show(x, 2)[:80])
    s = ZERO
    for m, c in x.args[0]:
        for i, (z, e) in enumerate(m):
            d = deriv(z, tau)
            if d is ZERO:
                continue
            y = t.mul(num(c * e), t.mul(d, t.powi(z, e - 1)))
            for j, (w, f) in enumerate(m):
                if j != i:
                    y = t.mul(y, t.powi(w, f))
            s = t.add(s, y)
    return s


def masked(x, T):
    return {y for y in t.walk(x) if y.op == "idx" and y.args[0] is T and y.args[1].op in ("and", "or", "not", "lt0", "le0", "eq0", "bool")}


def pieces(q):
    q = strip(q)
    if q.op == "app" and q.args[0] == "concat1":
        return [p for a in q.args[1:] for p in pieces(a)]
    return [q]


def flags(mask, T, tau_points, env):
    out = []
    for v in tau_points:
        e = dict(env)
        e[T] = v
        try:
            out.append(bool(ground(mask, e)))
        except Unknown as ex:
            raise Vague("mask: %s" % ex)
    return out


def linear(mask, T, X):
    """Every comparison of the mask is between the time and one point (so its order type decides it)."""
    for y in t.walk(mask):
        if y.op in ("lt0", "le0", "eq0"):
            p = t.as_poly(y.args[0])
            for m in p:
                if sum(e for _, e in m) > 1:
                    return False
            at = {z for m in p for z, _ in m}
            if not at <= {T} | set(X):
                return False
            if len(p) > 2 or len(at) != 2 or sum(p.values()) != 0:
                return False
    return True


def three(prog, rep, name, qual, args, X, Y, ctor=None):
    r = enter(prog, qual, args=args)
    rep.covered(r)
    w = where(r)
    T = sym("T")
    res = r.returned
    if res is None or res.op != "tuple" or len(res.args) != 2:
        raise Vague("returns %s" % (t.show(res, 2)[:80] if res is not None else None))
    pos, q = res.args
    ps = pieces(q)
    if len(ps) == 1 and ps[0].op == "app" and ps[0].args[0] == "np.where3":
        whole(rep, name, w, pos, ps[0], X, Y, T)
        return
    if len(ps) != 2:
        raise Vague("%d pieces" % len(ps))
    vals = [0, 2, 5]
    env = dict(zip(X, map(Fraction, vals)))
    pts = [Fraction(v) for v in (-1, 0, 1, 2, 3, 5, 6)]
    ms = []
    for p in ps:
        m = masked(p, T)
        if len(m) != 1:
            raise Vague("%d time selections in a piece" % len(m))
        ms.append(m.pop())
    for m in ms + list(masked(pos, T)):
        if not linear(m.args[1], T, X):
            raise Vague("selection %s" % t.show(m.args[1], 4)[:120])
    f = [flags(m.args[1], T, pts, env) for m in ms]
    pm = strip(pos)
    if pm.op == "idx" and pm.args[0] is T:
        fp = flags(pm.args[1], T, pts, env)
    elif pm.op == "app" and pm.args[0] == "concat1" and len(pm.args) == 3 and list(pm.args[1:]) == ms:
        fp = [a or b for a, b in zip(*f)]
    else:
        raise Vague("positions %s" % t.show(pm, 3)[:80])
    want = [False, True, True, True, True, True, False]
    each = [a + b for a, b in zip(*f)]
    if fp == want and each == [int(v) for v in want] and not any(f[0][4:]) and not any(f[1][:3]):
        rep.ok(name + " pieces", R_CUT, w, "7 order types of a time against the points")
    else:
        rep.bad(name + " pieces", R_CUT, w, "times before/at/between/after the points: positions %s, first piece %s, second piece %s" % (fp, f[0], f[1]))
    tau = sym("tau")
    P = [slopes(t.subst(p, {m: tau})) for p, m in zip(ps, ms)]
    identities(rep, name, w, P, tau, X, Y)


def whole(rep, name, w, pos, q, X, Y, T):
    raise Vague("np.where over all times")


def identities(rep, name, w, P, tau, X, Y):
    D1 = [deriv(p, tau) for p in P]
    D2 = [deriv(p, tau) for p in D1]
    D4 = [deriv(deriv(p, tau), tau) for p in D2]
    at = lambda p, x: t.subst(p, {tau: x})
    ids = [("first piece at the first point", t.sub(at(P[0], X[0]), Y[0])), ("first piece at the middle point", t.sub(at(P[0], X[1]), Y[1])),
           ("second piece at the middle point", t.sub(at(P[1], X[1]), Y[1])), ("second piece at the last point", t.sub(at(P[1], X[2]), Y[2])),
           ("slopes at the middle point", t.sub(at(D1[0], X[1]), at(D1[1], X[1]))), ("curvatures at the middle point", t.sub(at(D2[0], X[1]), at(D2[1], X[1]))),
           ("curvature at the first point", at(D2[0], X[0])), ("curvature at the last point", at(D2[1], X[2])), ("degree of the first piece", D4[0]), ("degree of the second piece", D4[1])]
    known = set(X) | set(Y)
    for what, e in ids:
        if t.is_zero(e):
            rep.ok("%s: %s" % (name, what), R_3PT, w, "identity of rational functions of the points")
        else:
            n = t.clear_denoms(e)
            rest = {z for m in t.as_poly(n) for z, _ in m} - known
            v = sample(e, X, Y) if rest else None
            if v:
                rep.bad("%s: %s" % (name, what), R_3PT, w, "the identity fails: difference %s at %s" % v)
            elif rest:
                rep.undecided("%s: %s" % (name, what), R_3PT, w, "depends on %s" % [t.show(z, 2)[:60] for z in rest][:3])
            else:
                rep.bad("%s: %s" % (name, what), R_3PT, w, "the identity fails: difference %s" % t.show(e, 3)[:200])


def sample(e, X, Y):
    """A value of the points at which e is not zero."""
    for xs in ((0, 1, 2), (0, 1, 4), (0, 3, 4), (-2, 1, 7)):
        for ys in ((1, -2, 3), (0, 5, 1)):
            env = {k: Fraction(v) for k, v in zip(list(X) + list(Y), xs + ys)}
            try:
                v = ground(e, env)
            except Unknown:
                return None
            if v != 0:
                return v, "times %s, values %s" % (xs, ys)
    return None


# ------------------------------------------------------------------ interpolation calls
KINDS = {"akima": ("Akima1DInterpolator",), "cubic": ("CubicSpline", "interp1d:cubic", "C3", "make_interp_spline:3", "interp1d:3", "InterpolatedUnivariateSpline:3"),
         "pchip": ("PchipInterpolator",), "cubic_hermite": ("CubicHermiteSpline",),
         "linear": ("interp1d:linear", "interp1d:slinear", "np.interp", "interp1d:1", "make_interp_spline:1"),
         "slinear": ("interp1d:slinear", "interp1d:linear", "np.interp", "interp1d:1", "make_interp_spline:1"),
         "quadratic": ("interp1d:quadratic", "make_interp_spline:2", "interp1d:2")}
EXACT = {"Akima1DInterpolator:makima"} | {k for v in KINDS.values() for k in v} | {"interp1d:nearest", "interp1d:zero", "interp1d:previous", "interp1d:next", "interp1d:nearest-up", "UnivariateSpline", "SmoothBivariateSpline", "LSQUnivariateSpline", "splrep"}


def interpolant(v):
    """(constructor, x, y, extra, evaluation points)"""
    v = strip(v)
    if v.op != "app":
        return None
    f = v.args[0]
    if f == "C3.1":
        return "C3", v.args[1], v.args[2], [], v.args[3]
    if f == "np.interp" and len(v.args) == 4:
        return "np.interp", v.args[2], v.args[3], [], v.args[1]
    if f == "call" and len(v.args) == 3 and v.args[1].op == "app":
        c = v.args[1]
        n = str(c.args[0])
        if not n.startswith("scipy.interpolate."):
            return None
        n = n.split(".")[-1]
        pos = [a for a in c.args[1:] if a.op != "tuple"]
        kw = {a.args[0].args[0]: a.args[1] for a in c.args[1:] if a.op == "tuple" and len(a.args) == 2 and a.args[0].op == "py"}
        kind = {"interp1d": ("kind", 2, "linear"), "make_interp_spline": ("k", 2, 3), "InterpolatedUnivariateSpline": ("k", 4, 3)}.get(n)
        if kind is not None:
            k = kw.pop(kind[0], None)
            if k is None:
                k = pos.pop(kind[1]) if len(pos) > kind[1] else (py(kind[2]) if isinstance(kind[2], str) else num(kind[2]))
            if k.op not in ("py", "num"):
                return None
            n += ":%s" % k.args[0]
        x, y = kw.pop("x", None), kw.pop("y", None)
        if x is None and pos:
            x = pos.pop(0)
        if y is None and pos:
            y = pos.pop(0)
        for k in ("copy", "assume_sorted"):
            kw.pop(k, None)
        for k, d in (("bc_type", py("not-a-knot")), ("axis", ZERO), ("extrapolate", NONE), ("method", py("akima"))):
            if kw.get(k) is d and not (k == "extrapolate" and n == "CubicSpline"):
                del kw[k]
        if n == "CubicSpline" and kw.get("bc_type") is not None and kw["bc_type"].op == "py" and set(kw) == {"bc_type"}:
            n, kw = "CubicSpline:%s" % kw["bc_type"].args[0], {}
        if "method" in kw and n == "Akima1DInterpolator" and kw["method"].op == "py":
            n, kw = "Akima1DInterpolator:%s" % kw["method"].args[0], {}
        if kw:
            n += " with " + ",".join(sorted(kw))
        return n, x, y, pos, v.args[2]
    return None


def cases(x, env):
    """The branch of nested conditionals selected by env."""
    memo = {}

    def f(y):
        if y.op == "ite":
            try:
                return f(y.args[1] if ground(y.args[0], env) else y.args[2])
            except Unknown as e:
                raise Vague("condition %s" % t.show(y.args[0], 3)[:100])
        return y
    return f(x)


def within(x, T, lo, hi):
    """"all" (T itself), "in" (T restricted to lo..hi), or another selection's flags."""
    x = strip(x)
    if x is T:
        return "all"
    n = 0
    m = TRUE
    while x.op == "idx" and n < 3:
        m = t.and_(m, x.args[1]) if not t.has(x.args[1], lambda z: z.op == "idx" and z.args[0] is T) else None
        if m is None:
            return None
        x = x.args[0]
        n += 1
    if x is not T or not linear(m, T, [lo, hi]):
        return None
    f = flags(m, T, [Fraction(v) for v in (-1, 0, 1, 5, 6)], {lo: Fraction(0), hi: Fraction(5)})
    return "in" if f == [False, True, True, True, False] else f


def dims(v, E):
    return {y for y in t.walk(v) if y.op == "app" and (y.args[0] == "dim" and y.args[1] is E and y.args[2] is ONE or y.args[0] in ("len", "size") and y.args[1].op == "idx" and y.args[1].args[0] is E)}


def sizes(v, E):
    """Numbers of points to look at: some small ones, and those around every constant a number of points is compared with."""
    out = {3, 4, 5, 9}
    ds = dims(v, E)
    for y in t.walk(v):
        if y.op in ("lt0", "le0", "eq0") and t.has(y, lambda z: z in ds):
            for z in t.walk(y):
                for m, c in (z.args[0] if z.op == "poly" else ()):
                    if m == () and abs(c) <= 400:
                        out |= {int(abs(c)) + k for k in (-1, 0, 1)}
    return sorted(k for k in out if k >= 3)


def spline(prog, rep, name, run, kinds):
    E, T = sym("E"), sym("T")
    X, Y = arr.idx(E, ZERO), arr.idx(E, ONE)
    lo, hi = arr.idx(X, ZERO), arr.idx(X, num(-1))
    for kind in kinds:
        def go(kind=kind):
            r = run(kind)
            rep.covered(r)
            w = where(r)
            nm = "%s kind %s" % (name, kind)
            v = r.returned
            if v is not None:
                k = sym("self.spline_kind")
                v = t.subst(v, {k: py(kind), app("str.lower", k): py(kind.lower())})
            if v is None or r.dead:
                rep.bad(nm, R_SP, w, "kind %r is refused" % kind)
                return
            base = kind.lower()
            for n in sizes(v, E):
                env = {y: n for y in dims(v, E)}
                x = cases(v, env)
                if x.op != "tuple" or len(x.args) != 2:
                    raise Vague("returns %s" % t.show(x, 2)[:80])
                p, s = cases(x.args[0], env), cases(x.args[1], env)
                picks = {}
                for z in t.walk(s):
                    if z.op == "ite" and z not in picks:
                        try:
                            picks[z] = z.args[1] if ground(z.args[0], env) else z.args[2]
                        except Unknown:
                            pass
                if picks:
                    s = t.subst(s, picks)
                one(rep, "%s, %s points" % (nm, n), w, base, n, p, s, X, Y, lo, hi, T, E)
        rep.guard("%s kind %s" % (name, kind), R_SP, lambda go=go: vague(rep, "%s kind %s" % (name, kind), R_SP, go))


def one(rep, nm, w, kind, n, p, s, X, Y, lo, hi, T, E):
    got = interpolant(s)
    if got is None:
        raise Vague("value %s" % t.show(s, 3)[:120])
    c, x, y, extra, at = got
    if c == "CubicSpline:natural" and kind == "cubic" and n == 3:
        c = "C3"
    if c not in KINDS[kind]:
        if c in EXACT or c.startswith("CubicSpline:"):
            rep.bad(nm, R_SP, w, "a %r envelope is built with %s" % (kind, c))
            return
        raise Vague("interpolator %s" % c)
    if kind == "cubic" and (c == "C3") != (n == 3):
        rep.bad(nm, R_SP, w, "%s is not the cubic spline of %d points" % ("the three-point formula" if c == "C3" else c, n))
        return
    if kind == "cubic_hermite":
        g = extra[0] if len(extra) == 1 else None
        if g is None:
            raise Vague("slopes missing")
        ref = app("np.gradient", Y, X)
        if g is not ref:
            for n in sorted({min(k, 40) for k in sizes(g, E)}):
                u = Unroll({E: [entries("x", n), entries("y", n)]})
                try:
                    same_ = same(u(g), u(ref))
                except NoUnroll as e:
                    raise Vague("slopes: %s" % e)
                if same_ != "equal":
                    rep.bad(nm, R_SP, w, "slopes are %s, not the gradient of the values over the times" % t.show(g, 3)[:100])
                    return
    elif extra:
        raise Vague("extra arguments")
    x, y = strip(x), strip(y)
    if x is not X or y is not Y:
        if unknown_atoms(x) or unknown_atoms(y):
            raise Vague("data %s, %s" % (t.show(x, 2)[:60], t.show(y, 2)[:60]))
        rep.bad(nm, R_SP, w, "interpolates %s against %s" % (t.show(y, 3)[:80], t.show(x, 3)[:80]))
        return
    a, b = within(at, T, lo, hi), within(p, T, lo, hi)
    if p.op == "app" and p.args[0] == "C3.0":
        b = within(p.args[3], T, lo, hi)
    if a is None or b is None:
        raise Vague("evaluated at %s, returned for %s" % (t.show(at, 3)[:60], t.show(p, 3)[:60]))
    if a in ("in", "all") and b in ("in", "all"):
        rep.ok(nm, R_SP, w, "%s of times and values on the times spanned" % c)
    else:
        rep.bad(nm, R_SP, w, "times before/at/inside/at/after the points: evaluated %s, returned %s" % (a, b))


def vague(rep, name, rule, go):
    try:
        go()
    except Vague as e:
        rep.undecided(name, rule, "", str(e))


# ------------------------------------------------------------------ the chain
def sentinel(x):
    return x.op == "stack" and all(y is num(-1) for _, y in x.args) or x.op == "tuple" and all(y is num(-1) for y in x.args) or x.op == "num"


def chain(prog, rep, name, qual, args, order, ops, nspl, kindarg=None):
    r = enter(prog, qual, args=args, opaque=ops)
    rep.covered(r)
    w = where(r)
    T, S = sym("T"), sym("S")
    v = r.returned
    fe = {}
    for y in t.walk(v):
        if y.op == "app" and str(y.args[0]).startswith("FE."):
            fe.setdefault(str(y.args[0]), set()).add(y)
    want = {k: app("FE.%d" % k, T, S, *order.get("fe", ())) for k in range(5)}
    pp = [app("PP.%d" % k, *[{"T": T, "S": S, "max_pos": want[0], "max_val": want[1], "min_pos": want[2], "min_val": want[3]}.get(a, a) for a in order["pp"]]) for k in range(2)]
    exp = pp if nspl == 0 else [app("SP.1", T, p, *order.get("sp", ())) for p in pp] + pp
    lens = {y for y in t.walk(v) if y.op == "app" and y.args[0] in ("len", "size") and str(y.args[1].args[0]).startswith("FE.")}
    other = [y for y in lens if y.args[1] not in (want[0], want[2]) and y.args[1] not in (want[1], want[3])]
    if other:
        if any(unknown_atoms(y) for y in other):
            raise Vague("lengths of %s" % t.show(other[0], 2)[:80])
        rep.bad(name, R_CH, w, "counts %s instead of the signal's extrema" % t.show(other[0].args[1], 3)[:120])
        return
    for a, b in [(a, b) for a in range(6) for b in range(6) if abs(a - b) < 2]:
        env = {y: (a if y.args[1] in (want[0], want[1]) else b) for y in lens}
        x = cases(v, env)
        parts = [strip(cases(z, env)) for z in x.args] if x.op == "tuple" else ([strip(cases(z, env)) for _, z in x.args] if x.op == "stack" else [x])
        none = all(sentinel(z) for z in parts) or all(z.op == "app" and "ones" in str(z.args[0]) or z.op == "poly" and not t.has(z, lambda q: q.op == "app" and str(q.args[0]).startswith(("PP.", "SP.")))
                                                      for z in parts)
        if a + b < 3:
            if not none:
                if len(parts) == len(exp) and not any(unknown_atoms(z) for z in parts):
                    rep.bad(name, R_CH, w, "with %d maxima and %d minima envelopes are still built" % (a, b))
                    return
                raise Vague("with too few extrema: %s" % t.show(x, 2)[:100])
            continue
        if none:
            rep.bad(name, R_CH, w, "with %d maxima and %d minima no envelopes are built" % (a, b))
            return
        if len(parts) != len(exp):
            raise Vague("%d results" % len(parts))
        for i, (g, e) in enumerate(zip(parts, exp)):
            if g is not e:
                bad = unknown_atoms(g) or not t.has(g, lambda z: z.op == "app" and str(z.args[0]).startswith(("PP.", "SP.")))
                if bad:
                    raise Vague("result %d is %s" % (i, t.show(g, 3)[:100]))
                rep.bad(name, R_CH, w, "result %d is %s, expected %s" % (i, t.show(g, 3)[:150], t.show(e, 3)[:150]))
                return
    rep.ok(name, R_CH, w, "for all counts of extrema (0..5 each)")


# ------------------------------------------------------------------ images
def axis_of(x, masks):
    x = strip(x)
    if x.op == "app" and x.args[0] == "nonzero" and x.args[2].op == "num":
        masks.add(x.args[1])
        return int(x.args[2].args[0])
    return None


def shifted(x, a):
    """x is a + c or c * a for a number c with x different from a"""
    d = t.sub(x, a)
    if d.op == "num":
        return d is not ZERO
    return any(x is t.scale(a, k) for k in (-1, 2, Fraction(1, 2)))


DEGREE = "the surface is the bicubic smoothing spline (EMD2D) or the cubic radial basis function (BEMD)"


def kind_of_surface(rep, name, w, c, want):
    """The interpolating object: its class and its keywords."""
    cls = str(c.args[0]).rsplit(".", 1)[-1]
    kw = {a.args[0].args[0]: a.args[1] for a in c.args[1:] if a.op == "tuple" and len(a.args) == 2 and a.args[0].op == "py"}
    bad = und = None
    if cls != want:
        if cls in ("Rbf", "SmoothBivariateSpline", "interp2d", "LSQBivariateSpline", "NearestNDInterpolator", "LinearNDInterpolator", "CloughTocher2DInterpolator"):
            bad = "built by %s" % cls
        else:
            und = "built by %s" % cls
    elif cls == "Rbf":
        fn = kw.pop("function", py("multiquadric"))
        if fn.op == "py" and isinstance(fn.args[0], str):
            if fn is not py("cubic"):
                bad = "radial basis function %r" % fn.args[0]
        else:
            und = "radial basis function %s" % t.show(fn, 2)[:80]
        sm = kw.pop("smooth", ZERO)
        if sm is not ZERO:
            bad, und = ("smoothed by %s" % t.show(sm, 2), und) if sm.op == "num" else (bad, "smoothing %s" % t.show(sm, 2)[:80])
        kw.pop("epsilon", None)
        nm = kw.pop("norm", py("euclidean"))
        if nm is not py("euclidean"):
            bad, und = ("distances %s" % nm.args[0], und) if nm.op == "py" else (bad, "distances")
        if kw:
            und = "keywords %s" % sorted(kw)
    else:
        n = {app("len", a) for a in c.args[1:4]}
        for k in ("kx", "ky"):
            v = kw.pop(k, num(3))
            if v is num(3):
                continue
            w_ = [t.subst(v, {y: num(m) for y in n}) for m in (16, 20, 50, 1000)]
            w_ = [refold(y) for y in w_]
            if any(y.op == "num" and y is not num(3) for y in w_):
                bad = "degree %s = %s" % (k, t.show(v, 4)[:80])
            else:
                und = "degree %s = %s" % (k, t.show(v, 4)[:80])
        sm = kw.pop("s", NONE)
        if sm is not NONE and sm not in n:
            bad, und = ("smoothing factor %s" % t.show(sm, 2), und) if sm.op == "num" else (bad, "smoothing factor %s" % t.show(sm, 2)[:80])
        for k in ("w", "bbox", "eps"):
            v = kw.pop(k, NONE)
            if v is not NONE:
                und = "keyword %s" % k
        if kw:
            und = "keywords %s" % sorted(kw)
    rep.verdict("bad" if bad else "undecided" if und else "ok", name + " kind", DEGREE, w, bad or und or cls)


def refold(x):
    """arithmetic on sizes with numbers in place of the sizes"""
    if x.op == "app" and x.args[0] == "floordiv":
        a, b = map(refold, x.args[1:3])
        if a.op == b.op == "num" and b.args[0]:
            return num(a.args[0] // b.args[0])
    if x.op == "app" and x.args[0] in ("np.minimum", "np.maximum", "min", "max", "int"):
        vs = [refold(y) for y in x.args[1:]]
        if all(y.op == "num" for y in vs):
            v = [y.args[0] for y in vs]
            return num(int(v[0]) if x.args[0] == "int" else (min if "min" in x.args[0] else max)(v))
    if x.op == "ite":
        c = refold(x.args[0])
        c = c.args[0] if c.op in ("num", "bool") else None
        if c is not None:
            return refold(x.args[1] if c else x.args[2])
    if x.op in ("lt0", "le0", "eq0"):
        y = refold(x.args[0])
        if y.op == "num":
            v = y.args[0]
            return TRUE if (v < 0 if x.op == "lt0" else v <= 0 if x.op == "le0" else v == 0) else FALSE
    return x


def grid_axis(x, image):
    """Axis of the output along which the evaluation coordinate x runs over 0..n-1, n the image's size on that axis."""
    n = [app("len", image), app("dim", image, ONE)]
    x = strip(x)
    if x.op == "app" and str(x.args[0]).startswith("meshgrid") and len(x.args) == 4:
        k = int(x.args[1].args[0])
        ax = k if x.args[0] == "meshgrid.ij" else 1 - k
        a = x.args[2 + k]
        if a is app("arange", ZERO, n[ax]):
            return ax
        if a.op == "app" and a.args[0] == "arange" and a.args[1] is ZERO and a.args[2] is n[1 - ax]:
            return "axis %d runs over the image's size on the other axis" % ax
        if shifted(a, app("arange", ZERO, n[ax])):
            return "axis %d runs over %s" % (ax, t.show(a, 3)[:80])
    return None


def bemd(prog, rep):
    name = "BEMD envelopes"
    im = sym("image")
    B = "PyEMD.BEMD.BEMD."
    f = enter(prog, B + "find_extrema_positions", args=[arrin("image", 2)])
    rep.covered(f)
    fv = f.returned
    if fv is None or fv.op != "tuple" or len(fv.args) != 2 or any(x.op != "tuple" or len(x.args) != 2 for x in fv.args):
        raise Vague("positions %s" % t.show(fv, 2)[:80])
    masks = [set(), set()]
    axes = [[axis_of(x, masks[i]) for x in p.args] for i, p in enumerate(fv.args)]
    if any(None in a for a in axes) or any(len(m) != 1 for m in masks):
        raise Vague("positions are not coordinates of marked pixels")
    mn, mx = [m.pop() for m in masks]
    flip = t.subst(mx, {im: t.neg(im)})
    (rep.ok if flip is mn else rep.undecided)("BEMD extrema", "minima are the maxima of the negated image", where(f), "")
    if mn is mx:
        rep.bad("BEMD extrema", "minima are the maxima of the negated image", where(f), "minima and maxima are the same pixels")
    r = enter(prog, B + "extract_max_min_spline", args=[arrin("image", 2), pairin("mn"), pairin("mx")])
    rep.covered(r)
    w = where(r)
    v = r.returned
    if v is None or v.op != "tuple" or len(v.args) != 2:
        raise Vague("returns %s" % t.show(v, 2)[:80])
    for what, nm, g, ax in (("lower", "mn", v.args[0], axes[0]), ("upper", "mx", v.args[1], axes[1])):
        g = strip(g)
        if not (g.op == "app" and g.args[0] == "call" and g.args[1].op == "app" and str(g.args[1].args[0]).startswith("scipy.interpolate.") and len(g.args) == 4):
            raise Vague("surface %s" % t.show(g, 2)[:80])
        kind_of_surface(rep, "BEMD %s surface" % what, w, g.args[1], "Rbf")
        surface(rep, "BEMD %s surface" % what, w, g, {sym(nm + "0"): ax[0], sym(nm + "1"): ax[1]}, im, im, grid_axis)


def pairin(n):
    def f(I, st):
        out = []
        for k in range(2):
            arr.RANK[sym(n + str(k))] = 1
            out.append(I.newarr(st, sym(n + str(k)), 1))
        return Tup(tuple(out))
    return f


def surface(rep, name, w, g, axes, values, image, gax):
    c = g.args[1]
    data = [a for a in c.args[1:] if a.op != "tuple"]
    if len(data) != 3:
        raise Vague("%d data arrays" % len(data))
    xs, z, grids = data[:2], strip(data[2]), g.args[2:]
    ax = [axes.get(strip(x)) for x in xs]
    if None in ax:
        hit = [strip(x) for x in xs]
        if all(x.op in ("sym", "app") and (x.op == "sym" or str(x.args[0]).startswith("FE.")) for x in hit):
            rep.bad(name, R_2D, w, "interpolates at %s" % [t.show(x, 2)[:60] for x in hit])
            return
        if any(x.op == "idx" and x.args[0] is image for x in hit):
            rep.bad(name, R_2D, w, "image values serve as coordinates: %s" % [t.show(x, 2)[:60] for x in hit])
            return
        raise Vague("coordinates %s" % [t.show(x, 2)[:60] for x in xs])
    ga = [gax(x, image) for x in grids]
    if None in ga:
        if any(strip(x).op == "idx" and strip(x).args[0] is image or strip(x) in axes for x in grids):
            rep.bad(name, R_2D, w, "evaluated at %s" % [t.show(x, 2)[:60] for x in grids])
            return
        raise Vague("evaluation grid %s" % [t.show(x, 3)[:80] for x in grids])
    if not (z.op == "idx" and z.args[0] is values and z.args[1].op == "tuple" and len(z.args[1].args) == 2):
        if unknown_atoms(z):
            raise Vague("values %s" % t.show(z, 3)[:80])
        rep.bad(name, R_2D, w, "the data values are %s" % t.show(z, 3)[:120])
        return
    za = [axes.get(strip(x)) for x in z.args[1].args]
    if None in za:
        rep.bad(name, R_2D, w, "values read at %s" % [t.show(x, 2)[:60] for x in z.args[1].args])
    elif za != [0, 1]:
        rep.bad(name, R_2D, w, "values are read at the transposed pixel")
    elif sorted(ax) != [0, 1] or ax != ga:
        rep.bad(name, R_2D, w, "data coordinates run along axes %s, the evaluation grid along %s" % (ax, ga))
    else:
        rep.ok(name, R_2D, w, "coordinates, values and grid agree on both axes")


def emd2d(prog, rep):
    D = "PyEMD.EMD2d.EMD2D."
    ops = merge(opaque(prog, D + "find_extrema", "FE", (2, 2)), opq_array(prog, D + "prepare_image", "BIG"))
    r = enter(prog, D + "extract_max_min_spline", args=[arrin("image", 2)], opaque=ops)
    rep.covered(r)
    v = r.returned
    im = sym("image")
    big = app("BIG", im)
    if v is None or v.op != "tuple" or len(v.args) != 2:
        raise Vague("returns %s" % t.show(v, 2)[:80])
    n = [app("len", im), app("dim", im, ONE)]

    def gax(x, image):
        for k in (0, 1):
            if strip(x) is app("arange", n[k], t.scale(n[k], 2)):
                return k
        y = strip(x)
        if y.op == "app" and y.args[0] == "arange" and not unknown_atoms(y) or any(shifted(y, app("arange", m, t.scale(m, 2))) for m in n):
            return "%s" % t.show(y, 3)[:80]
        return None
    for i, (what, g) in enumerate(zip(("lower", "upper"), v.args)):
        g = strip(g)
        if not (g.op == "app" and g.args[0] == "call" and g.args[1].op == "app" and str(g.args[1].args[0]).startswith("scipy.interpolate.") and len(g.args) == 4):
            raise Vague("surface %s" % t.show(g, 2)[:80])
        kind_of_surface(rep, "EMD2D %s surface" % what, where(r), g.args[1], "SmoothBivariateSpline")
        surface(rep, "EMD2D %s surface" % what, where(r), g, {app("FE.%d.%d" % (i, k), big): k for k in (0, 1)}, big, im, gax)


def opq_array(prog, qual, name):
    from sa.runs import bindargs
    try:
        f = get_func(prog, qual)
    except AnchorMissing:
        return {}

    def h(I, st, args, kw, node):
        env = bindargs(I, st, f, args, kw, node)
        x = app(name, *[I.read(st, v) for k, v in env.items() if k not in ("self", "cls")])
        arr.RANK[x] = 2
        return I.newarr(st, x, 2, node=node)
    return {qual: h}


def orientation(x, im):
    """(upside down?, left-right?) of a mirrored copy of the image."""
    x = strip(x)
    if x is im:
        return (0, 0)
    if x.op == "app" and x.args[0] in ("np.flipud", "np.fliplr") and len(x.args) == 2:
        a, b = orientation(x.args[1], im)
        return (1 - a, b) if x.args[0] == "np.flipud" else (a, 1 - b)
    if x.op == "app" and x.args[0] == "np.flip":
        a, b = orientation(x.args[1], im)
        ax = x.args[2] if len(x.args) > 2 else None
        if ax is not None and ax.op == "tuple" and ax.args[0].op == "py":
            ax = ax.args[1]
        if ax is None or ax is NONE or ax.op == "tuple" and set(ax.args) == {ZERO, ONE}:
            return (1 - a, 1 - b)
        if ax is ZERO:
            return (1 - a, b)
        if ax is ONE or ax is num(-1):
            return (a, 1 - b)
    if x.op == "idx":
        a, b = orientation(x.args[0], im)
        ix = list(x.args[1].args) if x.args[1].op == "tuple" else [x.args[1]]
        fl = [a, b]
        for k, s in enumerate(ix):
            if s.op != "slice" or k > 1:
                raise Vague("copy %s" % t.show(x, 3)[:80])
            lo, hi, stp = s.args
            if lo is NONE and hi is NONE and stp is num(-1):
                fl[k] = 1 - fl[k]
            elif not (lo in (NONE, ZERO) and hi is NONE and stp in (NONE, ONE)):
                raise Vague("copy %s" % t.show(x, 3)[:80])
        return tuple(fl)
    raise Vague("copy %s" % t.show(x, 3)[:80])


def blocks(ix, n):
    """Block numbers (0..2) a slice of the big image covers along an axis of block size n."""
    if ix.op != "slice" or ix.args[2] not in (NONE, ONE):
        raise Vague("region %s" % t.show(ix, 3)[:80])
    b = []
    for x, dflt in ((ix.args[0], 0), (ix.args[1], 3)):
        if x is NONE:
            b.append(dflt)
            continue
        for k in range(-3, 4):
            if x is t.scale(n, k):
                b.append(k + 3 if k < 0 else k)
                break
        else:
            raise Vague("bound %s" % t.show(x, 3)[:80])
    return range(b[0], b[1])


def tiles(x, im, n):
    """3x3 grid of orientations."""
    x = strip(x)
    if x.op == "store":
        g = tiles(x.args[0], im, n)
        ix = x.args[1]
        if ix.op != "tuple" or len(ix.args) != 2:
            raise Vague("region %s" % t.show(ix, 3)[:80])
        rs, cs = blocks(ix.args[0], n[0]), blocks(ix.args[1], n[1])
        if len(rs) != 1 or len(cs) != 1:
            raise Vague("region of %d x %d blocks" % (len(rs), len(cs)))
        g = [list(z) for z in g]
        g[rs[0]][cs[0]] = orientation(x.args[2], im)
        return g
    if x.op == "app" and x.args[0] == "np.pad" and len(x.args) >= 3:
        md = [a.args[1] for a in x.args[3:] if a.op == "tuple" and a.args[0] is py("mode")] or [a for a in x.args[3:4]]
        if md and md[0] is py("symmetric") and strip(x.args[1]) is im:
            return [[(1, 1), (1, 0), (1, 1)], [(0, 1), (0, 0), (0, 1)], [(1, 1), (1, 0), (1, 1)]]
        raise Vague("np.pad")
    if x.op == "num" or x.op == "comp" and x.args[-1] is ZERO or x.op == "app" and ("zeros" in str(x.args[0]) or "empty" in str(x.args[0]) or "full" in str(x.args[0])):
        return [[None] * 3 for _ in range(3)]
    raise Vague("big image %s" % t.show(x, 2)[:100])


def big(prog, rep):
    r = enter(prog, "PyEMD.EMD2d.EMD2D.prepare_image", args=[arrin("image", 2)])
    rep.covered(r)
    im = sym("image")
    n = [app("len", im), app("dim", im, ONE)]
    g = tiles(r.returned, im, n)
    want = [[(1, 1), (1, 0), (1, 1)], [(0, 1), (0, 0), (0, 1)], [(1, 1), (1, 0), (1, 1)]]
    wrong = [(i, j, g[i][j]) for i in range(3) for j in range(3) if g[i][j] != want[i][j]]
    if wrong:
        rep.bad("EMD2D.prepare_image", R_BIG, where(r), "block(s) (row, column, (upside-down, left-right)): %s" % wrong[:4])
    else:
        rep.ok("EMD2D.prepare_image", R_BIG, where(r), "9 blocks")


def check(prog, rep, tier):
    V3 = [arrin("x"), arrin("y"), arrin("T")]
    xs = [arr.idx(sym("x"), num(k)) for k in range(3)]
    ys = [arr.idx(sym("y"), num(k)) for k in range(3)]
    E = sym("E")
    ex = [[arr.idx(arr.idx(E, num(j)), num(k)) for k in range(3)] for j in range(2)]

    def g(name, rule, fn):
        rep.guard(name, rule, lambda: vague(rep, name, rule, fn))
    J, M, P = "PyEMD.experimental.jitemd.", "PyEMD.EMD_matlab.EMD.", "PyEMD.EMD.EMD."
    g("splines.cubic_spline_3pts", R_3PT, lambda: three(prog, rep, "splines.cubic_spline_3pts", "PyEMD.splines.cubic_spline_3pts", V3, xs, ys))
    g("numba cubic_spline_3pts", R_3PT, lambda: three(prog, rep, "numba cubic_spline_3pts", J + "cubic_spline_3pts", V3, xs, ys))
    g("EMD_matlab.cubicSpline_3points", R_3PT, lambda: three(prog, rep, "EMD_matlab.cubicSpline_3points", M + "cubicSpline_3points", [arrin("T"), arrin("E", 2)], ex[0], ex[1]))
    A = [arrin("T"), arrin("E", 2)]
    c3 = opaque(prog, "PyEMD.splines.cubic_spline_3pts", "C3", 2)
    spline(prog, rep, "EMD.spline_points", lambda k: enter(prog, P + "spline_points", args=A, opaque=c3, ctor=dict(kw={"spline_kind": V(py(k))})),
           ["akima", "cubic", "pchip", "cubic_hermite", "linear", "slinear", "quadratic", "Cubic"])
    cj = opaque(prog, J + "cubic_spline_3pts", "C3", 2)
    spline(prog, rep, "numba spline_points", lambda k: enter(prog, J + "spline_points", args=A + [V(py(k))], opaque=cj), ["akima", "cubic", "linear", "slinear", "quadratic"])
    cm = matlab_c3(prog, M)
    spline(prog, rep, "EMD_matlab.splinePoints", lambda k: enter(prog, M + "splinePoints", args=A + [V(py(k))], opaque=cm), ["akima", "cubic", "linear", "slinear", "quadratic"])
    TS = [arrin("T"), arrin("S")]
    o = merge(opaque(prog, P + "find_extrema", "FE", 5), opaque(prog, P + "prepare_points", "PP", 2, 2), opaque(prog, P + "spline_points", "SP", 2))
    g("EMD.extract_max_min_spline", R_CH, lambda: chain(prog, rep, "EMD.extract_max_min_spline", P + "extract_max_min_spline", TS, {"pp": ["T", "S", "max_pos", "max_val", "min_pos", "min_val"]}, o, 2))
    o2 = merge(opaque(prog, J + "find_extrema", "FE", 5), opaque(prog, J + "prepare_points", "PP", 2, 2))
    g("numba extract_max_min_extrema", R_CH, lambda: chain(prog, rep, "numba extract_max_min_extrema", J + "extract_max_min_extrema", TS + [scin("nbsym"), scin("det")],
        {"fe": [sym("det")], "pp": ["T", "S", "max_pos", "max_val", "min_pos", "min_val", sym("det"), sym("nbsym")]}, o2, 0))
    o3 = merge(opaque(prog, M + "findExtrema", "FE", 5), opaque(prog, M + "preparePoints", "PP", 2, 2), opaque(prog, M + "splinePoints", "SP", 2))
    g("EMD_matlab.extractMaxMinSpline", R_CH, lambda: chain(prog, rep, "EMD_matlab.extractMaxMinSpline", M + "extractMaxMinSpline", TS,
        {"pp": ["S", "T", "max_pos", "max_val", "min_pos", "min_val"], "sp": [sym("self.splineKind")]}, o3, 2))
    g("BEMD envelopes", R_2D, lambda: bemd(prog, rep))
    g("EMD2D envelopes", R_2D, lambda: emd2d(prog, rep))
    g("EMD2D.prepare_image", R_BIG, lambda: big(prog, rep))


def matlab_c3(prog, M):
    """cubicSpline_3points(T, extrema) seen as C3(extrema[0], extrema[1], T)."""
    from sa.runs import bindargs
    try:
        f = get_func(prog, M + "cubicSpline_3points")
    except AnchorMissing:
        return {}

    def h(I, st, args, kw, node):
        env = bindargs(I, st, f, args, kw, node)
        T, E = I.read(st, env["T"]), I.read(st, env["extrema"])
        out = []
        for i in range(2):
            x = app("C3.%d" % i, arr.idx(E, ZERO), arr.idx(E, ONE), T)
            arr.RANK[x] = 1
            out.append(I.newarr(st, x, 1, node=node))
        return Tup(tuple(out))
    return {M + "cubicSpline_3points": h}
