"""Equality of value numbers by case analysis on join gates and by loop
invariants (init / back-edge substitution).  Verdicts: ok / bad / unknown."""
from fractions import Fraction
from . import terms as t
from . import arr
from .terms import num, ZERO, ONE, NONE, TRUE, FALSE, mk, app

UNKNOWN_FUN = ("call", "getitem", "unordered", "ext[]", "opaque", "starlist", "startuple", "dictmerge", "missing", "unset", "obj", "truth", "matmul")


def unknown_atoms(x, allow=()):
    """Sub-terms the analysis knows nothing about."""
    out = []
    for y in t.walk(x):
        if y.op == "havoc":
            out.append(y)
        elif y.op == "app" and isinstance(y.args[0], str):
            f = y.args[0]
            if f in allow:
                continue
            if f in ("opaque", "dead") or f.startswith("rec:") or f.startswith("m:") or f.startswith("fn.") or f.startswith("val:"):
                out.append(y)
    return out


def near_zero_args(facts):
    """Terms X for which the facts say |X| is within 1e-8 of zero."""
    out = []
    for f in facts:
        out += _near(f)
    return out


TOL = Fraction(1, 10**8)


def _near(f):
    if f.op == "app" and f.args[0] == "np.allclose":
        a, b = f.args[1], f.args[2]
        rtol, atol = f.args[3], f.args[4]
        if not t.isnum(atol) or atol.args[0] > TOL:
            return []
        if b is ZERO:
            return [a]
        if a is ZERO and False:
            return [b]
        if t.isnum(rtol) and rtol.args[0] == 0:
            return [t.sub(a, b)]
        return []
    if f.op == "app" and f.args[0] == "np.all":
        return _near(f.args[1])
    if f.op == "and":
        return [y for x in f.args for y in _near(x)]
    if f.op in ("lt0", "le0"):
        base, k = t.split_const(f.args[0])
        c, p = t.primitive(base)
        if c <= 0:
            return []
        if Fraction(-k) / c > TOL:
            return []
        if p.op == "app" and p.args[0] in ("np.abs",):
            return [p.args[1]]
        if p.op == "app" and p.args[0] in ("np.sum", "np.max") and p.args[1].op == "app" and p.args[1].args[0] == "np.abs":
            return [p.args[1].args[1]]
        return []
    if f.op == "eq0":
        x = f.args[0]
        if x.op == "app" and x.args[0] in ("np.sum", "np.max") and x.args[1].op == "app" and x.args[1].args[0] == "np.abs":
            return [x.args[1].args[1]]
        return [x]
    if f.op == "not" and f.args[0].op == "app" and f.args[0].args[0] == "np.any":
        x = f.args[0].args[1]
        if x.op in ("lt0", "le0", "eq0", "not"):
            return _near(t.not_(x))
        return [x]
    if f.op == "app" and f.args[0] == "np.array_equal":
        return [t.sub(f.args[1], f.args[2])]
    return []


def proportional(d, x):
    """d == lam * x with |lam| <= 1 or lam a scale of the data."""
    if x is d or x is t.neg(d):
        return True
    a, b = t.clear_denoms(d), t.clear_denoms(x)
    if a is ZERO:
        return True
    if b is ZERO:
        return False
    ca, pa = t.primitive(a)
    cb, pb = t.primitive(b)
    if pa is pb:
        if d.op != "poly" or x.op != "poly":
            return abs(ca) <= abs(cb)
        return True
    # common scalar factor: compare after dividing out every monomial's gcd
    ga, ra = _mono_gcd(pa)
    gb, rb = _mono_gcd(pb)
    if ra is rb:
        return True
    # polynomial factor: d = f*x for a scalar sum f among x's denominators
    for f in _dens(x):
        y = t.mul(f, x)
        for s in (1, -1):
            if t.is_zero(t.sub(d, t.scale(y, s))):
                return True
    return False


def _dens(x):
    out = []
    for m, _c in (x.args[0] if x.op == "poly" else ()):
        for a, e in m:
            if e < 0 and a not in out:
                out.append(a)
    return out


def _mono_gcd(p):
    q = t.as_poly(p)
    common = None
    for m in q:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    common = {a: e for a, e in (common or {}).items() if arr.rank(a) == 0}
    if not common:
        return {}, p
    inv = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda z: z[0].id))
    return common, t.mul(p, t.from_poly({inv: 1}))


class Prover:
    def __init__(self, I, limit=400):
        self.I = I
        self.limit = limit
        self.n = 0
        self.bad = []
        self.unknown = []
        self.cases = 0

    def zero(self, d, facts=(), depth=0, near=()):
        """Prove d == 0 (or near-zero by a tested fact) on every gate."""
        old, t.SIMP_LIMIT = t.SIMP_LIMIT, 10**12
        try:
            return self.zero_(d, facts, depth, near)
        finally:
            t.SIMP_LIMIT = old

    def zero_(self, d, facts=(), depth=0, near=()):
        self.n += 1
        if self.n > self.limit:
            self.unknown.append((facts, d))
            return "unknown"
        if facts:
            d = t.simp(d, t.Facts(facts))
        if self.leaf_ok(d, facts, near):
            self.cases += 1
            return "ok"
        c = t.first_cond(d)
        if c is not None:
            res = "ok"
            for lit in (c, t.not_(c)):
                fs = list(facts) + [lit]
                F = t.Facts(fs)
                if inconsistent(fs):
                    continue
                nz = [t.simp(x, F) for x in near]
                fs2 = [lit] + [t.simp(f, t.Facts([lit])) for f in facts]
                if any(f is FALSE for f in fs2):
                    continue
                fs2 = [f for f in fs2 if f is not TRUE]
                r1 = self.zero(t.simp(d, F), fs2, depth, nz)
                if r1 == "bad":
                    return "bad"
                if r1 == "unknown":
                    res = "unknown"
            return res
        r = self.induct(d, facts, depth, near)
        if r == "ok":
            self.cases += 1
            return "ok"
        if unknown_atoms(d):
            self.unknown.append((facts, d))
            return "unknown"
        if r == "unknown":
            self.unknown.append((facts, d))
            return "unknown"
        self.bad.append((facts, d))
        return "bad"

    def leaf_ok(self, d, facts, near):
        if d is ZERO or t.is_zero(d):
            return True
        for x in list(near_zero_args(facts)) + list(near):
            if proportional(d, x):
                return True
        return False

    def phis_of(self, d):
        out = {}
        for x in t.walk(d):
            if x.op == "phi":
                out.setdefault(x.args[0], []).append(x)
        return out

    def induct(self, d, facts, depth, near):
        """Loop invariant: holds initially and is preserved by the back edge."""
        if depth > 2:
            return "bad"
        by = self.phis_of(d)
        if not by:
            return "bad"
        res = "bad"
        for skey in sorted(by, key=lambda s: -len(s)):
            m0, m1 = {}, {}
            okk = True
            for p in by[skey]:
                info = self.I.phis.get(p)
                if info is None or info["back"] is None:
                    okk = False
                    break
                m0[p] = info["init"]
                m1[p] = info["back"]
            if not okk:
                res = "unknown"
                continue
            L = self.I.loops.get(skey)
            if L is not None:
                m0[L["iota"]] = ZERO
                m1[L["iota"]] = t.add(L["iota"], ONE)
            d0 = t.subst(d, m0)
            sub = Prover(self.I, max(20, (self.limit - self.n) // 4))
            if sub.zero(d0, (), depth + 1) != "ok":
                continue
            d1 = t.subst(d, m1)
            diff = t.sub(d1, d)
            sub = Prover(self.I, max(20, (self.limit - self.n) // 4))
            if sub.zero(diff, (), depth + 1) == "ok":
                return "ok"
            # preservation assuming d == 0 through the facts
            sub = Prover(self.I, max(20, (self.limit - self.n) // 4))
            if sub.zero(d1, (), depth + 3, near=[d]) == "ok" and False:
                return "ok"
        return res


def inconsistent(fs):
    F = t.Facts()
    for f in fs:
        if F.decide(f) is False:
            return True
        F = t.Facts(list(F.pos) + [f])
    return False
