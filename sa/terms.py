"""Hash-consed term domain used as the abstract value domain of the analyser.

A term names a value the analysed program computes.  Arithmetic is kept in a
polynomial normal form over atoms (real arithmetic, i.e. "up to rounding"),
comparisons are normalised against zero, joins are `ite` terms gated by the
branch condition, and loop-carried values are `phi` terms.  Nothing here ever
executes code of the analysed project.
"""
from fractions import Fraction

_table = {}
_all = []


class Term:
    __slots__ = ("op", "args", "id", "size")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_all)
        _all.append(t)
        _table[key] = t
        n = 1
        for s in subterms(t):
            n += s.size
        t.size = min(n, 10**9)
    return t


def subterms(t):
    """Direct sub-terms."""
    op, a = t.op, t.args
    if op == "poly":
        for mono, _c in a[0]:
            for x, _e in mono:
                yield x
    elif op in ("sym", "num", "bool", "py", "phi", "iota", "havoc", "bv"):
        return
    elif op == "stack":
        for p in a:
            yield p[1]
    else:
        for x in a:
            if isinstance(x, Term):
                yield x
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        yield y
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term):
                                yield z


# ----------------------------------------------------------------- constants
def q(x):
    """Rational in its cheapest representation (int when integral; equal and hash-equal to the Fraction)."""
    if type(x) is int:
        return x
    x = Fraction(x)
    return x.numerator if x.denominator == 1 else x


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return mk("app", "inf") if x > 0 else neg(mk("app", "inf"))
        x = Fraction(repr(x))
    return mk("num", q(x))


def sym(name):
    return mk("sym", name)


def py(x):
    return mk("py", x)


NAN = mk("app", "nan")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = py(None)
ZERO = mk("num", 0)
ONE = mk("num", 1)


def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, complex):
        return app("complex", num(x.real), num(x.imag)) if x.real else mul(num(x.imag), app("imagunit"))
    if x is None or isinstance(x, (str, bytes)):
        return py(x)
    return py(repr(x))


def boolc(b):
    return TRUE if b else FALSE


_hv = [0]


def havoc(why="?"):
    _hv[0] += 1
    return mk("havoc", why, _hv[0])


def app(f, *args):
    if f in ("mod", "floordiv") and len(args) == 2 and args[0].op == "num" and args[1].op == "num" and args[1].args[0]:
        return num(args[0].args[0] % args[1].args[0] if f == "mod" else args[0].args[0] // args[1].args[0])
    if f in ("np.minimum", "np.maximum") and len(args) == 2 and args[0].op == "num" and args[1].op == "num":
        return num((min if f == "np.minimum" else max)(args[0].args[0], args[1].args[0]))
    return mk("app", f, *args)


def isnum(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def isconst(t):
    return t.op in ("num", "bool", "py")


# ---------------------------------------------------------------- polynomials
# representation: {mono: coef}; mono = tuple(sorted((atom, exp)...) by atom id)
_polyc = {}


def as_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        r = _polyc.get(t)
        if r is None:
            r = dict(t.args[0])
            _polyc[t] = r
        return r
    if t.op == "bool":
        return {(): int(t.args[0])} if t.args[0] else {}
    return {((t, 1),): 1}


_mk = {}


def _mkey(mc):
    m = mc[0]
    k = _mk.get(m)
    if k is None:
        k = _mk[m] = (len(m), tuple((a.id, e) for a, e in m))
    return k


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        return mk("poly", ((m, c),))
    return mk("poly", tuple(sorted(p.items(), key=_mkey)))


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    p = dict(as_poly(a))
    for m, c in as_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in as_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    k = q(k)
    return from_poly({m: c * k for m, c in as_poly(a).items()})


def _mmul(m1, m2):
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].id))


LIMIT = 400


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) * len(pb) > LIMIT:
        if len(pa) > 1:
            pa = {((a, 1),): 1}
        if len(pb) > 1 and len(pa) * len(pb) > LIMIT:
            pb = {((b, 1),): 1}
    # direct cancellation of an expanded sum against its inverse atom
    for x, px, py_ in ((a, pa, pb), (b, pb, pa)):
        if len(px) > 1:
            c, prim = primitive(x)
            if any(any(at is prim and e < 0 for at, e in m) for m in py_):
                r = ZERO
                for m, co in py_.items():
                    one = from_poly({m: co})
                    if any(at is prim and e < 0 for at, e in m):
                        m2 = _mmul(m, ((prim, 1),))
                        r = add(r, from_poly({m2: co * c}))
                    else:
                        r = add(r, mul(x, one))
                return r
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def primitive(t):
    """t = c * prim with a canonical leading coefficient of 1."""
    p = as_poly(t)
    if not p:
        return 0, ZERO
    items = sorted(p.items(), key=_mkey)
    # leading = last (deterministic)
    c = items[-1][1]
    if c == 1:
        return c, t if t.op != "bool" else from_poly(p)
    return c, from_poly({m: q(Fraction(k) / c) for m, k in p.items()})


def inv(a):
    if a.op == "num":
        if a.args[0] == 0:
            return app("div0")
        return mk("num", q(Fraction(1) / a.args[0]))
    p = as_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): q(Fraction(1) / c)})
    c, prim = primitive(a)
    return from_poly({((prim, -1),): q(Fraction(1) / c)})


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return powi(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def power(a, b):
    if a.op == "app" and a.args[0] == "np.sqrt" and len(a.args) == 2 and b.op == "num" and b.args[0] == 2:
        return a.args[1]
    if b.op == "num" and b.args[0].denominator == 1 and abs(b.args[0]) <= 8:
        return powi(a, int(b.args[0]))
    if b.op == "num" and a.op == "num":
        try:
            return num(float(a.args[0]) ** float(b.args[0]))
        except Exception:
            pass
    if b.op == "num" and b.args[0] == Fraction(1, 2):
        return app("np.sqrt", a)
    return app("pow", a, b)


# ------------------------------------------------------------------- booleans
def lt0(t):
    if t.op == "num":
        return boolc(t.args[0] < 0)
    if t.op == "ite":
        return ite(t.args[0], lt0(t.args[1]), lt0(t.args[2]))
    c, prim = primitive(t)
    k = abs(c)
    return mk("lt0", scale(t, Fraction(1) / k))


def le0(t):
    if t.op == "num":
        return boolc(t.args[0] <= 0)
    if t.op == "ite":
        return ite(t.args[0], le0(t.args[1]), le0(t.args[2]))
    c, prim = primitive(t)
    return mk("le0", scale(t, Fraction(1) / abs(c)))


def eq0(t):
    if t.op == "num":
        return boolc(t.args[0] == 0)
    if t.op == "ite":
        return ite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
    c, prim = primitive(t)
    return mk("eq0", prim)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


BOOLISH = ("lt0", "le0", "eq0", "and", "or", "not", "bool", "eq", "is")


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "py":
            if y.op in ("py", "num", "bool"):
                return boolc(x is y)
            if y.op == "ite":
                return ite(y.args[0], eq(y.args[1], x), eq(y.args[2], x))
            return mk("eq", y, x)
    if a.op == "bool" or b.op == "bool":
        for x, y in ((a, b), (b, a)):
            if x.op == "bool":
                if y.op == "bool":
                    return boolc(x is y)
                if y.op in BOOLISH:
                    return y if x is TRUE else not_(y)
    return eq0(sub(a, b))


def not_(t):
    if t.op == "bool":
        return boolc(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    if t.op == "num":
        return boolc(t.args[0] == 0)
    if t.op == "py":
        return boolc(not t.args[0])
    if t.op == "ite":
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def and_(*ts):
    s = []
    seen = set()
    for t in _flat("and", ts):
        t = truth(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.id in seen:
            continue
        seen.add(t.id)
        s.append(t)
    for t in s:
        if not_(t).id in seen:
            return FALSE
    # absorption / unit propagation through or-members
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(s):
            if t.op == "or":
                ids = {x.id for x in t.args}
                if any(x.id in ids for x in s if x is not t):
                    s.pop(i)
                    changed = True
                    break
                neg_ids = {not_(x).id for x in s if x is not t and x.op != "or"}
                keep = [x for x in t.args if x.id not in neg_ids]
                if len(keep) != len(t.args):
                    s.pop(i)
                    return and_(*(s + [or_(*keep)]))
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk("and", *s)


def or_(*ts):
    s = []
    seen = set()
    for t in _flat("or", ts):
        t = truth(t)
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.id in seen:
            continue
        seen.add(t.id)
        s.append(t)
    for t in s:
        if not_(t).id in seen:
            return TRUE
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(s):
            if t.op == "and":
                ids = {x.id for x in t.args}
                if any(x.id in ids for x in s if x is not t):
                    s.pop(i)
                    changed = True
                    break
                neg_ids = {not_(x).id for x in s if x is not t and x.op != "and"}
                keep = [x for x in t.args if x.id not in neg_ids]
                if len(keep) != len(t.args):
                    s.pop(i)
                    return or_(*(s + [and_(*keep)]))
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk("or", *s)


def truth(t):
    """Truth value of a term used as a condition (no numeric decision made)."""
    if t.op == "num":
        return boolc(t.args[0] != 0)
    if t.op == "py":
        return boolc(bool(t.args[0]))
    return t


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "le0":  # canonical polarity
        return ite(not_(c), b, a)
    # nested same-condition collapse
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    boolish = ("bool",) + BOOLISH
    if a.op in boolish and b.op in boolish:
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    return mk("ite", c, a, b)


# ------------------------------------------------------------ simplification
def rebuild(t, f):
    """Rebuild t with f applied to its direct sub-terms."""
    op, a = t.op, t.args
    if op in ("sym", "num", "bool", "py", "phi", "iota", "havoc", "bv"):
        return t
    if op == "poly":
        r = ZERO
        same = True
        parts = []
        for mono, c in a[0]:
            m = []
            keep = True
            for x, e in mono:
                y = f(x)
                if y is not x:
                    keep = same = False
                m.append((y, e))
            parts.append((mono if keep else None, m, c))
        if same:
            return t
        acc = {}
        for mono, m, c in parts:
            if mono is not None:
                acc[mono] = acc.get(mono, 0) + c
                continue
            x = num(c)
            for y, e in m:
                x = mul(x, powi(y, e))
            for k, v in as_poly(x).items():
                acc[k] = acc.get(k, 0) + v
        return from_poly(acc)
    if op == "stack":
        ps = tuple((p[0], f(p[1])) for p in a)
        return stack(*ps)
    na = []
    same = True
    for x in a:
        if isinstance(x, Term):
            y = f(x)
            if y is not x:
                same = False
            na.append(y)
        elif isinstance(x, tuple):
            y = tuple(
                f(z) if isinstance(z, Term) else (tuple(f(w) if isinstance(w, Term) else w for w in z) if isinstance(z, tuple) else z)
                for z in x
            )
            if y != x:
                same = False
            na.append(y)
        else:
            na.append(x)
    if same:
        return t
    if op == "lt0":
        return lt0(na[0])
    if op == "le0":
        return le0(na[0])
    if op == "eq0":
        return eq0(na[0])
    if op == "eq":
        return eq(na[0], na[1])
    if op == "is" and na[1] is NONE:
        return is_none(na[0])
    if op == "not":
        return not_(na[0])
    if op == "and":
        return and_(*na)
    if op == "or":
        return or_(*na)
    if op == "ite":
        return ite(*na)
    if op == "idx":
        return REBUILD_IDX(*na)
    if op == "sumrows":
        return REBUILD_SUM(na[0])
    if op == "sumover":
        return REBUILD_SUMOVER(*na)
    if op == "comp":
        return REBUILD_COMP(*na)
    if op == "app" and na[0] in ("mod", "floordiv", "np.minimum", "np.maximum"):
        return app(*na)
    return mk(op, *na)


def REBUILD_IDX(b, i):
    return mk("idx", b, i)


def REBUILD_SUM(b):
    return mk("sumrows", b)


def REBUILD_SUMOVER(n, b):
    return mk("sumover", n, b)


def REBUILD_COMP(n, b):
    return mk("comp", n, b)


def stack(*parts):
    out = []
    for k, t in parts:
        if k == "mat" and t.op == "stack":
            out.extend(t.args)
        else:
            out.append((k, t))
    return mk("stack", *out)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        r = rebuild(t, lambda x: subst(x, m, memo))
        if r is not t and r.op == "app" and t.op == "app" and CARRY is not None:
            CARRY(t, r)
    memo[t] = r
    return r


NEVER_NONE = ("num", "bool", "poly", "lt0", "le0", "eq0", "and", "or", "not", "eq", "is", "stack", "iota", "tuple", "comp", "sumrows", "sumover", "store")


def is_none(x):
    if x is NONE:
        return TRUE
    if x.op in NEVER_NONE or x.op == "py":
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], is_none(x.args[1]), is_none(x.args[2]))
    b = x
    while b.op == "idx":
        b = b.args[0]
    if (b.op == "app" or b is not x and b.op == "poly") and RANKOF is not None and (RANKOF(x) or 0) >= 1:
        return FALSE
    return mk("is", x, NONE)


RANKOF = None
CARRY = None         # set by arr: carries the declared rank of a term to its instances


def lits(c):
    return list(c.args) if c.op == "and" else [c]


class Facts:
    """Conjunction of literals known to hold."""

    __slots__ = ("pos", "eqc")

    def __init__(self, ls=()):
        self.pos = set()
        self.eqc = {}
        for l in ls:
            for x in lits(l):
                self.pos.add(x)
                if x.op == "eq" and isconst(x.args[1]):
                    self.eqc[x.args[0]] = x.args[1]

    def decide(self, c):
        c = truth(c)
        if c.op == "bool":
            return c.args[0]
        if c in self.pos:
            return True
        if not_(c) in self.pos:
            return False
        if c.op == "eq" and c.args[0] in self.eqc:
            return self.eqc[c.args[0]] is c.args[1]
        if c.op == "lt0":
            n = c.args[0]
            # a<0 decided from a known a<=k etc. (same non-constant part)
            r = self._interval(n, strict=True)
            if r is not None:
                return r
        if c.op == "le0":
            r = self._interval(c.args[0], strict=False)
            if r is not None:
                return r
        if c.op == "eq0":
            r = self._interval(c.args[0], strict=True)
            if r is True:
                return False
            r = self._interval(neg(c.args[0]), strict=True)
            if r is True:
                return False
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else (not r)
        if c.op == "and":
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == "or":
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def _interval(self, p, strict):
        base, k = split_const(p)
        if base is ZERO:
            return None
        nb = neg(base)
        for f in self.pos:
            if f.op in ("lt0", "le0", "eq0"):
                b2, k2 = split_const(f.args[0])
                if f.op == "eq0":
                    if b2 is base or b2 is nb:
                        val = -k2 if b2 is base else k2
                        return (val + k < 0) if strict else (val + k <= 0)
                    continue
                if b2 is base:
                    # base + k2 < 0 (or <=0): base < -k2 ; want base + k < 0
                    if f.op == "lt0":
                        if k <= k2:
                            return True
                    else:
                        if k < k2 or (k == k2 and not strict):
                            return True
                elif b2 is nb:
                    # -base + k2 < 0: base > k2 ; base + k > k2 + k
                    if f.op == "lt0":
                        if k2 + k >= 0:
                            return False
                    else:
                        if k2 + k > 0 or (k2 + k == 0 and strict):
                            return False
        return None


def split_const(p):
    """p = base + k with k numeric."""
    q = as_poly(p)
    k = q.get((), 0)
    if k == 0:
        return p, k
    return from_poly({m: c for m, c in q.items() if m != ()}), k


SIMP_LIMIT = 3000


def simp(t, facts, memo=None):
    """Simplify t under facts (top-down on ite conditions)."""
    if not facts.pos:
        return t
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            d = facts.decide(x.args[0])
            if d is True:
                r = go(x.args[1])
            elif d is False:
                r = go(x.args[2])
            else:
                c = go(x.args[0])
                r = ite(c, go(x.args[1]), go(x.args[2]))
        elif x.op in ("lt0", "le0", "eq0", "eq", "not", "and", "or", "is"):
            d = facts.decide(x)
            if d is not None:
                r = boolc(d)
            else:
                r = rebuild(x, go)
        elif x.size > SIMP_LIMIT and x.op not in ("poly", "stack", "sumrows", "idx", "store", "tuple"):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ utilities
def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(subterms(x))


def has(t, pred):
    return any(pred(x) for x in walk(t))


def find_ite(t):
    """Innermost-first gated condition occurring in t (outside phi tables)."""
    for x in walk(t):
        if x.op == "ite":
            return x.args[0]
    return None


def top_cases(t, facts=(), limit=64):
    """Split t into (literals, ite-free-at-arith-level term) cases."""
    global SIMP_LIMIT
    out = []
    old, SIMP_LIMIT = SIMP_LIMIT, 10**12

    def go(t, ls):
        if len(out) > limit:
            return
        c = first_cond(t)
        if c is None or c in ls or not_(c) in ls:
            out.append((tuple(ls), t))
            return
        for lit in (c, not_(c)):
            f = Facts(list(facts) + ls + [lit])
            if f.decide(c) is None:
                continue
            go(simp(t, f), ls + [lit])

    try:
        go(simp(t, Facts(facts)) if facts else t, [])
    finally:
        SIMP_LIMIT = old
    return out


def first_cond(t):
    """A condition of an ite atom visible to arithmetic (not under app/phi)."""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            c = x.args[0]
            while True:
                if c.op in ("and", "or", "not"):
                    c = c.args[0]
                elif c.op == "ite":
                    c = c.args[0]
                else:
                    return c
        if x.op in ("poly", "stack", "sumrows", "idx", "store", "lt0", "le0", "eq0", "tuple"):
            st.extend(subterms(x))
    return None


def clear_denoms(t):
    """Multiply by inverse atoms until no negative exponent is left."""
    for _ in range(12):
        p = as_poly(t)
        dens = {}
        for m in p:
            for x, e in m:
                if e < 0:
                    dens[x] = max(dens.get(x, 0), -e)
        if not dens:
            return t
        r = {}
        x, k = next(iter(dens.items()))
        acc = ZERO
        for m, c in p.items():
            e0 = dict(m).get(x, 0)
            rest = tuple(xe for xe in m if xe[0] is not x)
            y = from_poly({rest: c})
            y = mul(y, powi(x, e0 + k))
            acc = add(acc, y)
        t = acc
    return t


def is_zero(t):
    return clear_denoms(t) is ZERO


_show_memo = {}


def show(t, depth=6):
    op, a = t.op, t.args
    if depth < 0:
        return "…"
    d = depth - 1
    if op == "num":
        v = a[0]
        return str(v) if v.denominator == 1 or v.denominator > 1000 and False else (str(v) if v.denominator < 10**4 else repr(float(v)))
    if op in ("sym",):
        return a[0]
    if op in ("bool", "py"):
        return repr(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = [show(x, d) + ("" if e == 1 else "^%d" % e) for x, e in m]
            s = "*".join(fs)
            if c == 1 and s:
                out.append(s)
            elif c == -1 and s:
                out.append("-" + s)
            else:
                out.append(show(num(c)) + ("*" + s if s else ""))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) if isinstance(x, Term) else str(x) for x in a[1:]))
    if op == "ite":
        return "ite(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "lt0":
        return show(a[0], d) + "<0"
    if op == "le0":
        return show(a[0], d) + "<=0"
    if op == "eq0":
        return show(a[0], d) + "==0"
    if op == "eq":
        return show(a[0], d) + "==" + show(a[1], d)
    if op == "is":
        return show(a[0], d) + " is " + show(a[1], d)
    if op == "not":
        return "!" + show(a[0], d)
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x, d) for x in a) + ")"
    if op == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if op == "stack":
        return "stack[" + "; ".join(("*" if k == "mat" else "") + show(x, d) for k, x in a) + "]"
    if op in ("phi", "havoc", "iota", "bv"):
        return op + "<" + ",".join(str(x) for x in a) + ">"
    return "%s(%s)" % (op, ", ".join(show(x, d) if isinstance(x, Term) else str(x) for x in a))
