"""Whether two analysed terms differ at some point: quantities the formulas do not look into (sums over the data, counts, table values) get
numbers, everything else is computed.  Used to confirm a difference found by comparing truth tables, whose rows may be contradictory."""
from .common import t, TRUE, FALSE
from .refute import Draw
import math

WITHIN = {"np.log", "np.exp", "np.sqrt", "np.abs", "abs", "math.log", "math.exp", "math.sqrt", "np.square", "max", "min", "cast", "bool", "int", "float"}
COUNT = ("len", "size", "rows", "int", "np.count_nonzero")


class NoValue(Exception):
    pass


class At:
    def __init__(self, env, exact=False):
        self.env = env
        self.memo = {}
        self.mag = {}             # size of what went into a value, for its rounding error
        self.exact = exact

    def num(self, x):
        v = self.memo.get(x)
        if v is None:
            v = self.memo[x] = self.num_(x)
        if isinstance(v, complex) or math.isnan(v):
            raise NoValue
        return v

    def num_(self, x):
        op, a = x.op, x.args
        if op == "num":
            return float(a[0])
        if op == "bool":
            return float(a[0])
        if op == "poly":
            s, big = 0.0, 0.0
            for m, c in a[0]:
                p = g = float(c)
                for b, e in m:
                    v = self.num(b)
                    if v == 0 and e < 0:
                        raise NoValue
                    p *= v ** int(e)
                    g *= (self.mag.get(b, abs(v)) if e > 0 else abs(v)) ** int(e)
                s += p
                big = max(big, abs(g))
            self.mag[x] = big
            if self.exact:
                return s
            if 1e-12 * big < abs(s) < 1e-7 * big:
                raise NoValue     # zero or not: not told apart
            return 0.0 if abs(s) <= 1e-12 * big else s
        if op == "ite":
            y = a[1] if self.truth(a[0]) else a[2]
            v = self.num(y)
            self.mag[x] = self.mag.get(y, abs(v))
            return v
        if op in ("lt0", "le0", "eq0", "and", "or", "not"):
            return float(self.truth(x))
        if op == "app" and a[0] in WITHIN:
            v = [self.num(y) for y in a[1:] if isinstance(y, t.Term) and y.op != "py"]
            f = str(a[0]).rsplit(".", 1)[-1]
            if f in ("abs", "max", "min", "cast", "float"):
                self.mag[x] = max(self.mag.get(y, 0.0) for y in a[1:] if isinstance(y, t.Term))
                self.mag[x] = max([self.mag[x]] + [abs(y) for y in v])
            try:
                return {"log": lambda y: math.log(y), "exp": lambda y: math.exp(y), "sqrt": lambda y: math.sqrt(y), "abs": abs, "square": lambda y: y * y,
                        "max": max, "min": min, "cast": lambda y: y, "bool": lambda y: float(y != 0), "int": lambda y: float(int(y)), "float": float}[f](*v)
            except (ValueError, OverflowError, TypeError):
                raise NoValue
        if op == "pow":
            try:
                return self.num(a[0]) ** self.num(a[1])
            except (OverflowError, ZeroDivisionError):
                raise NoValue
        if x in self.env:
            return self.env[x]
        raise NoValue

    def truth(self, x):
        op, a = x.op, x.args
        if op == "bool":
            return bool(a[0])
        if op == "and":
            return all(self.truth(y) for y in a)
        if op == "or":
            return any(self.truth(y) for y in a)
        if op == "not":
            return not self.truth(a[0])
        if op == "ite":
            return self.truth(a[1] if self.truth(a[0]) else a[2])
        if op in ("lt0", "le0", "eq0"):
            v = self.num(a[0])
            return v < 0 if op == "lt0" else v <= 0 if op == "le0" else v == 0
        return self.num(x) != 0


def atoms(x, out, inside):
    """the quantities not looked into; in `inside` those under a comparison"""
    op, a = x.op, x.args
    if op in ("num", "bool", "str", "py", "none"):
        return
    if op == "poly":
        for m, c in a[0]:
            for b, e in m:
                atoms(b, out, inside)
        return
    if op in ("ite", "lt0", "le0", "eq0", "and", "or", "not", "pow") or op == "app" and a[0] in WITHIN:
        for y in a:
            if isinstance(y, t.Term):
                atoms(y, out, inside)
        return
    out[x] = "count" if op == "app" and (a[0] in COUNT) else "flag" if op == "app" and a[0] in ("np.any", "np.all", "CHK", "np.allclose") else "value"


def differ(a, b, given={}, rounds=800):
    """(description or None, points evaluated).  given: {atom: function of a drawing} for atoms with a known range."""
    ats = {}
    atoms(a, ats, None)
    atoms(b, ats, None)
    # from quantity to quantity the order must not depend on hashing
    ats = dict(sorted(ats.items(), key=lambda kv: t.show(kv[0], 6)))
    comps = sorted({y.args[0] for x in (a, b) for y in t.walk(x) if y.op in ("lt0", "le0", "eq0")}, key=lambda y: t.show(y, 6))
    done = 0
    for k in range(rounds):
        d = Draw(k + 1)
        env = {}
        for x, kind in ats.items():
            if x in given:
                env[x] = float(given[x](d))
            elif kind == "count":
                env[x] = float((d(4), d(12), 1 + d(300))[d(3)])
            elif kind == "flag":
                env[x] = float(d(2))
            else:
                v = (1 + d(1000)) / (1.0, 10.0, 100.0, 1000.0)[d(4)]
                env[x] = v if d(2) else (v, v, -v)[d(3)]
        if comps and d(3) == 0:
            onto(comps[d(len(comps))], [x for x, kind in ats.items() if kind == "value" and x not in given], env, d)
        try:
            u, v = At(env), At(env)
            u, v = (u.truth(a), v.truth(b)) if logical(a) or logical(b) else (u.num(a), v.num(b))
        except NoValue:
            continue
        done += 1
        if isinstance(u, bool) and u != v or not isinstance(u, bool) and abs(u - v) > 1e-7 * max(1.0, abs(u), abs(v)):
            return "%s instead of %s where %s" % (u, v, ", ".join("%s = %g" % (t.show(x, 3)[:60], y) for x, y in env.items())), done
    return None, done


def logical(x):
    return x.op in ("lt0", "le0", "eq0", "and", "or", "not", "bool") or x.op == "ite" and logical(x.args[1])


def onto(p, xs, env, d):
    """change one quantity so that p vanishes, where it can"""
    if not xs:
        return
    x = xs[d(len(xs))]

    def f(v):
        env[x] = v
        return At(env, True).num(p)
    old = env[x]
    try:
        lo, hi = 1e-6, 1e6
        a, b = f(lo), f(hi)
        if a * b > 0:
            env[x] = old
            return
        for _ in range(200):
            mid = math.sqrt(lo * hi)
            c = f(mid)
            if c == 0:
                return
            if (c > 0) == (a > 0):
                lo = mid
            else:
                hi = mid
    except NoValue:
        env[x] = old


def confirmed(a, b, extra=(), given={}):
    """compare(), with a difference counted only where the two have different values at some point"""
    from .equiv import compare
    from .common import unknown_atoms
    v, why = compare(a, b, extra=extra)
    if v == "equal":
        return v, why
    known, own = {}, {}
    atoms(b, known, None)
    atoms(a, own, None)
    if v == "unknown" and (unknown_atoms(a) or any(x not in known for x in own)):
        return v, why
    hit, done = differ(a, b, given)
    if hit:
        return "different", hit[:300] + "; " + why
    if v == "different" and done < 200:
        return v, why
    return "unknown", "no difference at %d points; %s" % (done, why)
