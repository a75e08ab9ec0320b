from .common import *
from itertools import product
from fractions import Fraction
import time

EXPLANATION = ("The index set each detector returns is extracted as a term (loops as recurrences, filters as masks) and abstractly interpreted once per "
               "kind of sample: every combination of slope signs around a sample, every kind of flat stretch (touching the start, the end, both, "
               "neither; first, middle, last or only one; rising or falling at either side), every kind of zero. Conditions that the kind does not "
               "settle are explored both ways. Covers all signals of all lengths; nothing is executed.")
R_PT = "a sample strictly between its neighbours' slopes is reported exactly when it is above (below) both"
R_RUN = "a flat stretch is reported once, at its middle, exactly when the signal turns there; stretches touching either end are not"
R_AT = "positions and values are the time axis and the signal at the same index set"
R_ZC = "zero crossings: sample before each sign change"
R_ZRUN = "zero crossings: every stretch of zeros once, at its middle"
LEAVES = 4096


class Split(Exception):
    pass


def pm(x):
    return x.args[0] if x.op == "poly" else t.as_poly(x).items() if isinstance(t.as_poly(x), dict) else t.as_poly(x)


class World:
    """One kind of sample.  signs: world symbol -> set of possible signs; at: signal index term -> value term."""

    def __init__(self, I, name, signs, S="S"):
        self.I, self.name, self.signs, self.S = I, name, dict(signs), sym(S)
        self.n = app("len", self.S)
        self.signs[self.n] = {1}
        self.known = {}
        self.asked = {}
        self.probing = False          # only asking whether a list has an entry for the sample

    # ---- scalars
    def sign(self, x):
        """possible signs of a scalar over world symbols"""
        x = self.sc(x)
        pos = neg = zero_ok = False
        tot = None
        p = t.as_poly(x)
        items = list(p.items()) if isinstance(p, dict) else list(p)
        if not items:
            return {0}
        for m, c in items:
            s = {1 if c > 0 else -1}
            for z, e in m:
                zs = self.signs.get(z)
                if zs is None:
                    if t.has(z, lambda y: y.op == "app" and y.args[0] in ("nonzero1", "phi")):
                        raise Unknown("value of " + t.show(z, 3)[:80])
                    zs = {-1, 0, 1} if z.op == "idx" and z.args[0] is self.S or z in (sym("c"),) else None
                    if zs is None:
                        raise Unknown("value of " + t.show(z, 3)[:80])
                if e < 0:
                    zs = {w for w in zs if w}
                s = {u * (w if e % 2 else w * w) for u in s for w in zs}
            if tot is None:
                tot = s
            else:
                tot = {r for u in tot for w in s for r in ({u} if w == 0 else {w} if u == 0 else {u} if u == w else {-1, 0, 1})}
        return tot

    def sc(self, x):
        """scalar term with the facts of this world put in"""
        memo = {}

        def go(y):
            if y in memo:
                return memo[y]
            r = self.fact(y)
            if r is None:
                if y.op == "ite":
                    r = go(y.args[1] if self.tr(y.args[0]) else y.args[2])
                elif y.op == "app" and y.args[0] in ("int", "float", "cast", "bool") and len(y.args) >= 2:
                    r = go(y.args[-1])
                elif y.op == "idx" and arr.rank(y) == 0 and not (y.args[0].op == "sym"):
                    r = go(self.at(y.args[0], go(y.args[1]) if y.args[1].op != "slice" else y.args[1]))
                elif y.op == "idx" and y.args[0] is self.S:
                    r = self.signal(go(y.args[1]))
                elif y.op in ("poly", "num"):
                    r = t.rebuild(y, go)
                elif y.op == "app" and y.args[0] in ("np.sign", "np.abs", "abs"):
                    a = go(y.args[1])
                    s = self.sign(a)
                    if len(s) != 1:
                        r = y
                    elif y.args[0] == "np.sign":
                        r = num(list(s)[0])
                    else:
                        r = t.scale(a, list(s)[0])
                else:
                    r = y
            memo[y] = r
            return r
        return go(x)

    def fact(self, y):
        return self.known.get(y)

    def signal(self, i):
        return self.known.get(("S", i)) or mk("idx", self.S, i)

    # ---- element of an array at an index term
    def at(self, a, i):
        if a.op == "idx" and a.args[1].op == "slice":
            lo, hi, st = a.args[1].args
            if st is not NONE or not (lo is NONE or t.isnum(lo) and lo.args[0] >= 0):
                raise Unknown("element of " + t.show(a, 3)[:80])
            return self.at(a.args[0], i if lo is NONE else t.add(i, lo))
        if a is self.S:
            return self.signal(i)
        if a.op in ("num", "bool"):
            return a
        if a.op == "ite":
            return self.at(a.args[1] if self.tr(a.args[0]) else a.args[2], i)
        if a.op in ("poly", "lt0", "le0", "eq0", "and", "or", "not"):
            return t.rebuild(a, lambda y: self.at(y, i) if arr.rank(y) != 0 else y)
        if a.op == "app" and a.args[0] in ("cast", "np.sign", "np.abs", "abs") and arr.rank(a.args[-1]) != 0:
            return app(*(a.args[:-1] + (self.at(a.args[-1], i),)))
        raise Unknown("element of " + t.show(a, 3)[:80])

    # ---- truth
    def tr(self, x):
        op, a = x.op, x.args
        if x in self.asked:
            return self.asked[x]
        if op == "bool":
            return a[0]
        if op == "and":
            return self.three(a, False)
        if op == "or":
            return self.three(a, True)
        if op == "not":
            return not self.tr(a[0])
        if op == "ite":
            return self.tr(a[1] if self.tr(a[0]) else a[2])
        if op == "app" and a[0] in ("bool", "cast"):
            return self.tr(a[-1])
        if op in ("num", "poly") or op == "app" and a[0] in ("len", "size"):
            return not self.tr(t.eq0(x))
        f = self.special(x)
        if f is not None:
            return f
        if op in ("lt0", "le0", "eq0"):
            e = self.nonempty(mk(op, self.sc(a[0])))
            if e is not None:
                want, seq = e
                self.probing = True
                try:
                    some = self.mem(seq, True)
                finally:
                    self.probing = False
                if some:
                    return want
                raise Split(x)
            s = self.sign(a[0])
            y = {"lt0": {-1}, "le0": {-1, 0}, "eq0": {0}}[op]
            if s <= y:
                return True
            if not (s & y):
                return False
            raise Split(x)
        if op == "app" and a[0] in ("np.any", "np.all") and len(a) == 2:
            want = a[0] == "np.any"
            try:
                b = a[1] if want else t.not_(a[1])
                if self.etr(b):
                    return want
            except Outside:
                pass
            raise Split(x)
        raise Unknown("condition " + t.show(x, 3)[:100])

    def three(self, xs, absorbing):
        stop = None
        for z in xs:
            try:
                if self.tr(z) == absorbing:
                    return absorbing
            except (Split, Unknown) as e:
                if stop is None or isinstance(stop, Split):
                    stop = e
        if stop is not None:
            raise stop
        return not absorbing

    def special(self, x):
        return None

    def nonempty(self, x):
        """lt0(-len(seq)) and the like: (truth when seq is not empty, seq)."""
        p = t.as_poly(x.args[0])
        items = list(p.items()) if isinstance(p, dict) else list(p)
        L, k, c0 = None, 0, 0
        for m, c in items:
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] in ("len", "size") and self.list_like(m[0][0].args[1]):
                if L is not None:
                    return None
                L, c0 = m[0][0].args[1], c
            else:
                return None
        if L is None or abs(c0) != 1:
            return None
        f = lambda v: {"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[x.op]
        at0, some = f(k), {f(k + c0 * j) for j in (1, 2, 3, 10**6)}
        if len(some) != 1 or some == {at0}:
            return None
        return some.pop(), L

    def list_like(self, y):
        return y.op == "phi" or y.op in ("comp",) or y.op == "idx" and y.args[1].op in ("and", "lt0", "eq0", "le0", "or", "not", "ite")

    # ---- arrays aligned with the samples
    def el(self, x):
        """(is the sample among the entries, its value) for an array with one entry per sample kind"""
        raise Unknown(t.show(x, 3)[:80])

    def etr(self, x):
        raise Unknown(t.show(x, 3)[:80])

    # ---- membership in an index set
    def mem(self, x, ordered=False):
        op, a = x.op, x.args
        if op == "ite":
            try:
                c = self.tr(a[0])
            except Split:
                try:
                    c, d = self.mem(a[1], ordered), self.mem(a[2], ordered)
                    if c == d:
                        return c
                except (Split, Wrong, Unknown):
                    pass
                raise
            return self.mem(a[1] if c else a[2], ordered)
        if op == "app" and a[0] in ("cast", "int", "np.array", "list"):
            return self.mem(a[-1], ordered)
        if op == "app" and a[0] in ("np.sort", "np.unique", "sorted"):
            return self.mem(a[1], True)
        if op == "app" and a[0] == "concat1":
            return self.union(a[1:], ordered)
        if op == "stack":
            if not a:
                return False
            if all(k == "mat" for k, _ in a):
                return self.union([y for _, y in a], ordered)
        return self.source(x)

    def union(self, parts, ordered):
        got = [self.mem(y, ordered) for y in parts]
        if sum(got) > 1:
            raise Wrong("is reported more than once")
        if any(got) and not ordered and len(parts) > 1:
            raise Wrong("is reported out of order (no sort after joining)")
        return any(got)

    def source(self, x):
        raise Unknown("index set " + t.show(x, 3)[:100])


class Outside(Exception):
    """the array has no entry for this sample"""


class Wrong(Exception):
    pass


def linear(x):
    """const + 1 * atom: (const, atom)"""
    p = t.as_poly(x)
    items = list(p.items()) if isinstance(p, dict) else list(p)
    k, at = 0, None
    for m, c in items:
        if not m:
            k = c
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and at is None:
            at = m[0][0]
        else:
            return None
    return (k, at) if at is not None else None


def nz(x):
    return x.args[1] if x.op == "app" and x.args[0] == "nonzero1" and len(x.args) == 2 else None


def padded(cond, Bs=()):
    """Run detection: cond tests the differences of X = B with optional zeros before and after: (B, start or end, zero before, zero after)."""
    cast = {y: y.args[-1] for y in t.walk(cond) if y.op == "app" and y.args[0] == "cast"}
    while cast:
        cond = t.subst(cond, cast)
        cast = {y: y.args[-1] for y in t.walk(cond) if y.op == "app" and y.args[0] == "cast"}
    xs = {y for y in t.walk(cond) if y.op == "app" and y.args[0] == "concat1"}
    if len(xs) == 1:
        X = xs.pop()
        ps = list(X.args[1:])
        z = [p.op in ("num", "bool") and not p.args[0] or zerolist(p) for p in ps]
        p, q = int(z[0]), int(z[-1])
        mid = ps[p:len(ps) - q]
        if len(mid) != 1:
            return None
        cands = [(X, mid[0], p, q)]
    elif xs:
        return None
    else:
        cands = [(B, B, 0, 0) for B in Bs]
    for X, B, p, q in cands:
        lo, hi = arr.idx(X, arr.slc(NONE, num(-1))), arr.idx(X, arr.slc(ONE, NONE))
        tab = {}
        try:
            for u, v in product((0, 1), repeat=2):
                tab[u, v] = bool(ground(cond, {lo: u, hi: v}))
        except Unknown:
            continue
        on = {k for k, v in tab.items() if v}
        kind = {frozenset({(0, 1)}): "start", frozenset({(1, 0)}): "end"}.get(frozenset(on))
        if kind is None:
            if X is B:
                continue
            raise Unknown("run boundary test " + t.show(cond, 3)[:100])
        return B, kind, p, q
    return None


def flats(S):
    return t.eq0(t.sub(arr.idx(S, arr.slc(ONE, NONE)), arr.idx(S, arr.slc(NONE, num(-1)))))


def zerolist(p):
    return p.op == "stack" and len(p.args) == 1 and p.args[0][1] in (ZERO, FALSE)


class Point(World):
    """An inner sample i with slopes of signs (x, y) to either side."""

    def __init__(self, I, x, y, S="S"):
        World.__init__(self, I, "sample with slopes %s,%s" % (sg(x), sg(y)), {sym("x"): {x}, sym("y"): {y}}, S)
        i = sym("i")
        c = sym("c")
        X = sym("x") if x else ZERO
        Y = sym("y") if y else ZERO
        self.known.update({("S", t.sub(i, ONE)): t.sub(c, X), ("S", i): c, ("S", t.add(i, ONE)): t.add(c, Y)})
        self.slope = (x, y)

    def special(self, x):
        if t.has(x, lambda y: nz(y) is not None or y.op == "phi") and x.op in ("lt0", "le0", "eq0"):
            raise Split(x)
        return None

    def etr(self, b):
        # does some slope next to the sample make b true?  only a definite yes is used
        if arr.rank(b) != 1:
            raise Unknown(t.show(b, 3)[:80])
        for j in (t.sub(sym("i"), ONE), sym("i")):
            try:
                if self.tr(self.at(b, j)):
                    return True
            except (Split, Unknown):
                pass
        raise Outside()

    def source(self, x):
        l = linear(x)
        if l is None:
            if runlike(self, x):
                return False
            raise Unknown("index set " + t.show(x, 3)[:100])
        k, a = l
        cond = nz(a)
        if cond is None:
            if runlike(self, x):
                return False
            raise Unknown("index set " + t.show(x, 3)[:100])
        if padded(cond, (flats(self.S), t.eq0(self.S))):
            return False
        return self.tr(self.at(cond, t.sub(sym("i"), num(k))))


def runlike(w, x, seen=()):
    """A filtered list of run midpoints: made of run boundaries only."""
    if x.op == "phi":
        d = w.I.phis.get(x)
        return x not in seen and d is not None and d["init"].op == "stack" and not d["init"].args and runlike(w, d["back"], seen + (x,))
    if x.op == "ite":
        return runlike(w, x.args[1], seen) or runlike(w, x.args[2], seen)
    return t.has(x, lambda y: nz(y) is not None and t.has(y, lambda z: z.op == "app" and z.args[0] == "concat1"))


def sg(v):
    return {1: "+", 0: "0", -1: "-", None: "?"}[v]


class Run(World):
    """A maximal stretch of true entries of B: starts at D, ends before F."""

    def __init__(self, I, B, name, many, pos, D, F, first, last, touches, signs, S="S"):
        World.__init__(self, I, name, signs, S)
        self.B, self.pos = B, pos
        self.D, self.F, self.first, self.last = D, F, first, last
        self.count = t.add(num(3 if pos == "mid" else 2), sym("more")) if many else ONE
        self.signs.update({sym("more"): {0, 1}, sym("u"): {0, 1}, sym("v"): {0, 1}, sym("u1"): {0, 1}, sym("v1"): {0, 1}})
        self.cache = {}
        self.t0, self.te = touches

    def bound(self, y):
        """Run-boundary arrays of this B: (start or end, left out at the front, at the back, value for this run)."""
        c = nz(y)
        if c is None:
            return None
        if y not in self.cache:
            p = padded(c, (self.B,))
            if p is not None:
                if not self.sameB(p[0]):
                    raise Unknown("runs of another condition: " + t.show(p[0], 3)[:80])
                _, kind, l, r = p
                p = (kind, int(kind == "start" and not l and self.t0), int(kind == "end" and not r and self.te),
                     t.add(self.D if kind == "start" else self.F, num(l - 1)))
            self.cache[y] = p
        return self.cache[y]

    def sameB(self, b):
        while b.op == "app" and b.args[0] == "cast":
            b = b.args[-1]
        if b is self.B:
            return True
        if arr.rank(b) != 1 or not isb(b):
            return False
        got = []
        for s in (0, 1, -1):
            w = self.elementary(s)
            try:
                got.append(w.tr(w.at(b, sym("i"))))
            except Split:
                got.append(None)
            except Unknown:
                return False
        if got == [True, False, False]:
            return True
        if got[1] is None or got[2] is None:
            raise Wrong("is told apart by %s, which also takes %s for one" % (t.show(b, 4)[:100], self.notone))
        return False

    notone = "a pair of different samples"

    def elementary(self, s):
        w = World(self.I, "", {sym("x"): {s}}, self.S.args[0])
        w.known.update({("S", sym("i")): sym("c"), ("S", t.add(sym("i"), ONE)): t.add(sym("c"), sym("x") if s else ZERO)})
        return w

    def fact(self, y):
        if y in self.known:
            return self.known[y]
        if y.op == "app" and y.args[0] in ("len", "size"):
            b = self.bound(y.args[1])
            if b:
                return t.sub(self.count, num(b[1] + b[2]))
        if y.op == "idx":
            b = self.bound(y.args[0])
            if b and t.isnum(y.args[1]):
                k = y.args[1].args[0]
                e = self.first if k == 0 and not b[1] else self.last if k == -1 and not b[2] else (None, None)
                v = e[b[0] == "end"]
                if v is None:
                    raise Unknown(t.show(y, 3)[:80])
                return t.add(v, t.sub(b[3], self.D if b[0] == "start" else self.F))
        return None

    def special(self, x):
        for k, v in ((ZERO, self.t0), (num(-1), self.te)):
            if x is arr.idx(self.B, k):
                return v
        if x.op == "app" and x.args[0] in ("np.any", "np.all"):
            want = x.args[0] == "np.any"
            b = x.args[1] if want else t.not_(x.args[1])
            if b is self.B or arr.rank(b) == 1 and not t.has(b, lambda y: nz(y) is not None or y.op == "phi") and self.sameB(b):
                return want
        return None

    # aligned arrays are (drop from the front, drop from the back, kept by masks, value)
    def seq(self, x):
        op, a = x.op, x.args
        b = self.bound(x)
        if b:
            return b[1], b[2], True, b[3]
        if op == "ite":
            return self.seq(a[1] if (self.etr if looped(a[0]) else self.tr)(a[0]) else a[2])
        if op in ("num", "sym") or arr.rank(x) == 0 and not looped(x):
            return None, None, True, self.sc(x)
        if op == "app" and a[0] in ("cast", "np.array", "int", "float", "list"):
            return self.seq(a[-1])
        if op == "app" and a[0] in ("np.round", "np.floor", "np.ceil", "floordiv") and len(a) >= 2:
            l, h, m, v = self.seq(a[1])
            return l, h, m, (num(v.args[0]) if t.isnum(v) and v.args[0].denominator == 1 else app("mid", v)) if a[0] != "floordiv" or len(a) == 3 and a[2] is ONE else app(a[0], v, *a[2:])
        if op == "stack" and not a:
            raise Outside()
        if op == "idx":
            base, i = a
            if i.op == "slice":
                lo, hi, st = i.args
                l, h, m, v = self.seq(base)
                if l is None:
                    raise Unknown("slice of " + t.show(base, 3)[:80])
                if st is not NONE:
                    raise Unknown("stepped slice")
                if m is not True:
                    raise Unknown("slice of a filtered list")
                lo = ZERO if lo is NONE else self.sc(lo)
                if not t.isnum(lo) or lo.args[0] < 0:
                    raise Unknown("slice from " + t.show(lo, 3))
                l += lo.args[0]
                if hi is not NONE:
                    hi = self.sc(hi)
                    if t.isnum(hi) and hi.args[0] < 0:
                        h += -hi.args[0]
                    else:
                        d = t.sub(t.sub(self.count, num(h)), hi)
                        if not t.isnum(d) or d.args[0] < 0:
                            raise Unknown("slice to " + t.show(hi, 3))
                        h += d.args[0]
                return l, h, m, v
            if isb(i):
                l, h, m, v = self.seq(base)
                if not self.inside(l, h):
                    raise Outside()
                return l, h, (m and self.etr(i)), v
            if arr.rank(i) == 1:          # gather from the signal
                l, h, m, v = self.seq(i)
                return l, h, m, self.sc(self.at(base, v))
            if i.op in ("iota", "bv") or arr.rank(i) == 0 and t.has(i, lambda y: y.op in ("iota", "bv")):
                lin = linear(i)
                if lin is None:
                    raise Unknown("entry " + t.show(i, 3))
                try:
                    l, h, m, v = self.seq(base)
                    if lin[1].op in ("iota", "bv") and m is True and l is not None:
                        return l + lin[0], h, m, v
                except Unknown:
                    pass
                l, h, m, v = self.seq(i)
                return l, h, m, self.sc(self.at(base, v))
            return None, None, True, self.sc(x)
        if op in ("iota", "bv"):
            raise Unknown("bare loop counter")
        if op in ("poly",):
            f, m, rep = None, True, {}
            for mono, c in (t.as_poly(x).items() if isinstance(t.as_poly(x), dict) else t.as_poly(x)):
                for z, e in mono:
                    if z in rep:
                        continue
                    l, h, k, v = self.seq(z)
                    rep[z] = v
                    m = m and k
                    if l is not None:
                        if f is None:
                            f = (l, h)
                        elif f[0] != l:
                            raise Wrong("boundaries of different stretches are combined: " + t.show(x, 3)[:100])
                        else:
                            f = (l, max(f[1], h))
            r = t.subst(x, rep)
            return (f or (None, None)) + (m, r)
        if arr.rank(x) == 0:
            return None, None, True, self.sc(x)
        raise Unknown("array " + t.show(x, 3)[:80])

    def inside(self, l, h):
        if self.pos == "only":
            return l == 0 and h == 0
        if self.pos == "first":
            if h > 1:
                raise Unknown("slice")
            return l == 0
        if self.pos == "last":
            if l > 1:
                raise Unknown("slice")
            return h == 0
        if l > 1 or h > 1:
            raise Wrong("stretches away from the ends are dropped")
        return True

    def etr(self, x):
        op, a = x.op, x.args
        if op == "bool":
            return a[0]
        if op in ("and", "or"):
            vs, e = [], None
            for y in a:
                try:
                    vs.append(self.etr(y))
                except (Split, Unknown) as q:
                    e = e if isinstance(e, Unknown) else q
            if (op == "or") in vs:
                return op == "or"
            if e is not None:
                raise e
            return op == "and"
        if op == "not":
            return not self.etr(a[0])
        if op == "ite":
            return self.etr(a[1] if (self.etr if arr.rank(a[0]) == 1 or looped(a[0]) else self.tr)(a[0]) else a[2])
        if op == "app" and a[0] in ("cast", "bool"):
            return self.etr(a[-1])
        if x is self.B:
            return True
        if op in ("lt0", "le0", "eq0"):
            l, h, m, v = self.seq(a[0])
            if l is None:
                return self.tr(x)
            if not m or not self.inside(l, h):
                raise Outside()
            s = self.sign(v)
            y = {"lt0": {-1}, "le0": {-1, 0}, "eq0": {0}}[op]
            if s <= y:
                return True
            if not (s & y):
                return False
            q = mk("here", x)
            if q in self.asked:
                return self.asked[q]
            raise Split(q)
        return self.tr(x)

    def source(self, x):
        l = linear(x)
        c = nz(l[1]) if l else None
        if c is not None and not padded(c, (self.B,)):
            return self.point(l[0], c)
        if x.op == "phi":
            return self.appended(x)
        if x.op == "comp":
            return self.entries(x.args[0], x.args[1], TRUE)
        try:
            l, h, m, v = self.seq(x)
        except Outside:
            return False
        if l is None:
            raise Unknown("index set " + t.show(x, 3)[:100])
        if not (m and self.inside(l, h)):
            return False
        self.check_mid(v)
        return True

    def point(self, k, c):
        return False

    def entries(self, n, e, cond):
        """[e for k in range(n) if cond]"""
        # a copy of another list
        f = e
        while f.op == "app" and f.args[0] in ("int", "cast", "float"):
            f = f.args[-1]
        while f.op == "ite":
            f = f.args[1] if self.tr(f.args[0]) else f.args[2]
        if f.op == "idx" and f.args[0].op in ("phi", "comp", "stack") and f.args[1].op in ("iota", "bv"):
            return self.mem(f.args[0], True)
        try:
            if not self.etr(cond):
                return False
            l, h, m, v = self.seq(e)
            if l is None:
                raise Unknown("entry " + t.show(e, 3)[:80])
        except Outside:
            return False
        d = t.sub(t.sub(self.count, num(l)), self.sc(n))
        if not t.isnum(d) or d.args[0] < h:
            if t.isnum(self.sc(n)) and self.sc(n).args[0] <= 0:
                return False
            raise Unknown("number of rounds " + t.show(n, 3)[:80])
        if not (m and self.inside(l, d.args[0])):
            return False
        self.check_mid(v)
        return True

    def appended(self, x):
        d = self.I.phis.get(x)
        if d is None:
            raise Unknown("list " + t.show(x, 2))
        L = None
        for k, q in self.I.loops.items():
            if x in q["phis"]:
                L = q
        if L is None or L["n"] is None:
            raise Unknown("loop of " + t.show(x, 2))
        if L["breaks"] or L["rets"]:
            raise Unknown("loop with early exit")
        if self.mem(d["init"], True):
            raise Unknown("list not empty at the start")
        return self.added(x, d["back"], L)

    def added(self, x, b, L):
        if b is x:
            return False
        if b.op == "ite":
            try:
                c = self.etr(b.args[0])
            except Outside:
                return False
            return self.added(x, b.args[1] if c else b.args[2], L)
        if b.op == "stack" and len(b.args) == 2 and b.args[0] == ("mat", x) and b.args[1][0] == "row":
            return self.entries(L["n"], b.args[1][1], TRUE)
        raise Unknown("list update " + t.show(b, 3)[:100])

    def middle(self):
        return t.scale(t.add(self.D, self.F), t.q(1) / 2)

    def check_mid(self, v):
        if self.probing:
            return
        w = self.middle()
        if v is app("mid", w) or v is w:
            return
        if v.op == "app" and v.args[0] == "mid" or not t.has(v, lambda y: y.op == "app"):
            raise Wrong("is reported at %s, not at its middle" % t.show(v, 3)[:100])
        raise Unknown("position " + t.show(v, 3)[:100])


def looped(x):
    return t.has(x, lambda y: y.op in ("iota", "bv"))


def isb(x):
    return x.op in ("lt0", "le0", "eq0", "and", "or", "not") or x.op == "ite" and isb(x.args[1]) or x.op == "app" and x.args[0] == "bool" and len(x.args) == 2


def flat_worlds(I, S="S"):
    """All kinds of stretches of equal neighbours (zeros of the differences)."""
    s = sym(S)
    B = flats(s)
    n = app("len", s)
    c = sym("c")
    for many, pos in ((False, "only"), (True, "first"), (True, "mid"), (True, "last")):
        for b0, be in product((True, False), repeat=2):
            D = ZERO if pos in ("only", "first") and b0 else t.add(ONE, sym("u"))
            F = t.sub(n, ONE) if pos in ("only", "last") and be else t.sub(t.sub(n, num(2)), sym("v"))
            D0 = D if pos in ("only", "first") else ZERO if b0 else t.add(ONE, sym("u1"))
            F1 = F if pos in ("only", "last") else t.sub(n, ONE) if be else t.sub(t.sub(n, num(2)), sym("v1"))
            first = (D0, F if pos in ("only", "first") else None)
            last = (D if pos in ("only", "last") else None, F1)
            for x, y in product(((1, -1) if D is not ZERO else (None,)), ((1, -1) if F is not t.sub(n, ONE) else (None,))):
                nm = "%s flat stretch%s%s%s, slopes %s,%s" % ("only" if pos == "only" else pos, " from the first sample" if D is ZERO else "",
                                                            " to the last sample" if F is t.sub(n, ONE) else "",
                                                            "" if pos == "only" else " (first stretch %s, last %s)" % ("at the start" if b0 else "inside", "at the end" if be else "inside"), sg(x), sg(y))
                w = Run(I, B, nm, many, pos, D, F, first, last, (b0, be), {sym("x"): {x}, sym("y"): {y}}, S)
                w.known[("S", D)] = c
                w.known[("S", F)] = c
                if x is not None:
                    w.known[("S", t.sub(D, ONE))] = t.sub(c, sym("x"))
                if y is not None:
                    w.known[("S", t.add(F, ONE))] = t.add(c, sym("y"))
                w.turn = (x, y)
                yield w


class Pair(World):
    """Samples i, i+1 with the given signs."""
    special = Point.special

    def __init__(self, I, x, y, S="S"):
        World.__init__(self, I, "neighbours of signs %s,%s" % (sg(x), sg(y)), {sym("x"): {x}, sym("y"): {y}}, S)
        i = sym("i")
        self.known.update({("S", i): sym("x") if x else ZERO, ("S", t.add(i, ONE)): sym("y") if y else ZERO})

    def etr(self, b):
        if arr.rank(b) == 1:
            for j in (sym("i"), t.add(sym("i"), ONE)):
                try:
                    if self.tr(self.at(b, j)):
                        return True
                except (Split, Unknown):
                    pass
        raise Outside()

    def source(self, x):
        l = linear(x)
        c = nz(l[1]) if l else None
        if c is None:
            if runlike(self, x):
                return False
            raise Unknown("index set " + t.show(x, 3)[:100])
        if padded(c, (flats(self.S), t.eq0(self.S))) or c is t.eq0(self.S):
            return False
        return self.tr(self.at(c, t.sub(sym("i"), num(l[0]))))


class Zeros(Run):
    """A stretch of zeros of the signal; adjacent: whether the signal has neighbouring zeros anywhere."""

    def __init__(self, I, name, many, pos, long, adjacent, b0, be, S="S"):
        s = sym(S)
        at0 = b0 and pos in ("only", "first")
        D = ZERO if at0 else t.add(ONE, sym("u"))
        F = t.add(D, t.add(num(2), sym("v")) if long else ONE)
        Run.__init__(self, I, t.eq0(s), name, many, pos, D, F, (D, F) if pos in ("only", "first") else (None, None),
                     (D, F) if pos in ("only", "last") else (None, None), (b0, be), {}, S)
        self.adjacent, self.long = adjacent, long

    notone = "a sample that is not zero"

    def elementary(self, s):
        w = World(self.I, "", {sym("x"): {s}}, self.S.args[0])
        w.known.update({("S", sym("i")): sym("x") if s else ZERO})
        return w

    def special(self, x):
        r = Run.special(self, x)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] in ("np.any", "np.all") and len(x.args) == 2:
            want = x.args[0] == "np.any"
            b = x.args[1] if want else t.not_(x.args[1])
            Z = app("nonzero1", t.eq0(self.S))
            lo, hi = arr.idx(Z, arr.slc(NONE, num(-1))), arr.idx(Z, arr.slc(ONE, NONE))
            try:
                g = [bool(ground(b, {lo: 10, hi: 10 + k})) for k in (1, 2, 3, 1000)]
            except Unknown:
                return None
            if g[0] and not any(g[1:]):
                return self.adjacent == want
            if not any(g):
                return not want
        return None

    def seq(self, x):
        if nz(x) is not None and nz(x) is self.B:
            if self.long:
                raise Wrong("reports every sample of a longer stretch")
            return 0, 0, True, self.D
        return Run.seq(self, x)

    def source(self, x):
        if nz(x) is self.B:
            l = self.seq(x)
            return True
        return Run.source(self, x)

    def middle(self):
        return t.scale(t.sub(t.add(self.D, self.F), ONE), t.q(1) / 2)


def explore(make, f):
    """Outcomes of f over all answers to conditions the world leaves open."""
    todo, out = [{}], []
    while todo:
        asked = todo.pop()
        w = make()
        w.asked = asked
        try:
            out.append((asked, f(w)))
        except Split as e:
            q = e.args[0]
            for v in (True, False):
                todo.append(dict(asked, **{}) | {q: v})
        except Wrong as e:
            out.append((asked, "Wrong: " + str(e)))
        except Outside:
            out.append((asked, "Unknown: nothing there"))
        except Unknown as e:
            out.append((asked, "Unknown: " + str(e)))
        if len(out) + len(todo) > LEAVES:
            return [({}, "Unknown: too many cases")]
    return out


def output(w, o, bases):
    """(which array is read, is the sample reported)"""
    while True:
        if o.op == "ite":
            o = o.args[1] if w.tr(o.args[0]) else o.args[2]
        elif o.op == "app" and o.args[0] in ("cast", "np.array"):
            o = o.args[-1]
        else:
            break
    if o.op == "idx" and o.args[0] in bases:
        return bases[o.args[0]], w.mem(o.args[1])
    return "index", w.mem(o)


def judge(rep, name, rule, r, worlds, out, base, want):
    """want(world) -> should the sample be reported"""
    bases = {sym("T"): "T", sym("S"): "S"}
    und = None
    k = 0
    for make in worlds:
        w0 = make()
        for asked, v in explore(make, lambda w: output(w, out, bases)):
            k += 1
            cond = "".join("; with %s%s" % ("" if b else "not ", t.show(q, 3)[:80]) for q, b in list(asked.items())[:3])
            if isinstance(v, str):
                if v.startswith("Wrong"):
                    rep.bad(name, rule, where(r), "%s %s%s" % (w0.name, v[7:], cond))
                    return
                und = und or "%s: %s%s" % (w0.name, v[9:], cond)
                continue
            b, m = v
            if m != want(w0):
                rep.bad(name, rule, where(r), "%s is %sreported%s" % (w0.name, "" if m else "not ", cond))
                return
            if b != base:
                rep.bad(name, R_AT, where(r), "%s is read from %s, not from %s" % (w0.name, b, base))
                return
    if und:
        rep.undecided(name, rule, where(r), und)
    else:
        rep.ok(name, rule, where(r), "%d cases" % k)


def simple(prog, rep, label, qual, posbase, args=None):
    r = enter(prog, qual, args=args or [arrin("T"), arrin("S")])
    rep.covered(r)
    x = r.returned
    if x.op != "tuple" or len(x.args) != 5:
        rep.undecided(label, R_PT, where(r), "returns " + t.show(x, 1)[:80])
        return
    I = r.I
    signs = list(product((1, 0, -1), repeat=2))
    pts = [(lambda x=x, y=y: Point(I, x, y)) for x, y in signs]
    nflat = len(list(flat_worlds(I)))
    runs_ = [(lambda k=k: list(flat_worlds(I))[k]) for k in range(nflat)]
    for j, (what, s) in enumerate((("maxima", 1), ("minima", -1))):
        for k, (kind, base) in enumerate((("positions", posbase), ("values", "S"))):
            o = x.args[2 * j + k]
            nm = "%s: %s of %s" % (label, kind, what)
            judge(rep, nm, R_PT, r, pts, o, base, lambda w: w.slope == (s, -s))
            judge(rep, nm + ", flat stretches", R_RUN, r, runs_, o, base, lambda w: w.turn == (s, -s))
    zeros(rep, label, r, x.args[4])


def zeros(rep, label, r, o):
    I = r.I
    signs = list(product((1, 0, -1), repeat=2))
    judge(rep, label + ": sign changes", R_ZC, r, [(lambda x=x, y=y: Pair(I, x, y)) for x, y in signs], o, "index",
          lambda w: w.signs[sym("x")] | w.signs[sym("y")] == {1, -1})
    ws = []
    for many, pos in ((False, "only"), (True, "first"), (True, "mid"), (True, "last")):
        for long, adj in ((False, False), (False, True), (True, True)):
            if long < adj and not many:
                continue
            for b0, be in product((True, False), repeat=2):
                nm = "%s stretch of %s zero%s%s%s" % (pos, "several" if long else "one", "s" if long else "", " at the start" if b0 and pos in ("first", "only") else "",
                                                      " at the end" if be and pos in ("last", "only") else "")
                ws.append(lambda many=many, pos=pos, long=long, adj=adj, nm=nm, b0=b0, be=be: Zeros(I, nm, many, pos, long, adj, b0, be))
    judge(rep, label + ": zero samples", R_ZRUN, r, ws, o, "index", lambda w: True)


R_KEEP = "parabolic detection drops exactly the samples equal to both neighbours"
R_VERTEX = "the reported point is the vertex of the parabola through three consecutive kept samples"
R_WINDOW = "reported exactly when the parabola opens the right way and its vertex lies nearer to the middle sample than to the other two"


class Parab:
    """Element-wise reading of an expression over three consecutive kept samples."""

    def __init__(self, T, S):
        n = {0: "p", 1: "0", 2: "n"}
        self.base = {T: "T", S: "S"}
        self.sym = {(b, k): sym(b + n[k]) for b in "TS" for k in n}
        p, z, q = (self.sym["T", k] for k in range(3))
        sp, s0, sn = (self.sym["S", k] for k in range(3))
        d = t.mul(t.mul(t.sub(p, z), t.sub(p, q)), t.sub(z, q))
        num_a = t.add(t.add(t.mul(t.sub(z, q), sp), t.mul(t.sub(q, p), s0)), t.mul(t.sub(p, z), sn))
        self.den = d
        self.a = num_a                                  # times den: second coefficient
        l0 = lambda u, v, s: t.mul(s, t.mul(t.sub(u, v), t.add(u, v)))
        self.b = t.neg(t.add(t.add(l0(z, q, sp), l0(q, p, s0)), l0(p, z, sn)))
        self.c = t.add(t.add(t.mul(sp, t.mul(t.mul(z, q), t.sub(z, q))), t.mul(s0, t.mul(t.mul(q, p), t.sub(q, p)))), t.mul(sn, t.mul(t.mul(p, z), t.sub(p, z))))
        self.memo, self.masks = {}, []

    def el(self, x):
        if x not in self.memo:
            self.memo[x] = self._el(x)
        return self.memo[x]

    def _el(self, x):
        op, a = x.op, x.args
        if op == "idx":
            if a[0] in self.base and a[1].op == "slice":
                lo, hi, st = a[1].args
                lo = 0 if lo is NONE else lo.args[0] if t.isnum(lo) else None
                hi = 0 if hi is NONE else hi.args[0] if t.isnum(hi) else None
                if st is NONE and (self.base[a[0]], lo) in self.sym and hi == lo - 2:
                    return self.sym[self.base[a[0]], lo]
                raise Unknown("slice " + t.show(x, 3)[:80])
            if isb(a[1]):
                m = self.el(a[1])
                if m not in self.masks:
                    self.masks.append(m)
                return self.el(a[0])
            raise Unknown(t.show(x, 3)[:80])
        if op == "store" and isb(a[1]):
            return self.pick(self.el(a[1]), a[2], a[0])
        if op == "ite":
            return self.pick(self.el(a[0]), a[1], a[2])
        if op == "app" and a[0] == "np.where3":
            return self.pick(self.el(a[1]), a[2], a[3])
        if op in ("num", "bool"):
            return x
        if op == "app" and a[0] in ("cast",):
            return self.el(a[-1])
        if op == "poly" or op in ("lt0", "le0", "eq0", "and", "or", "not"):
            return t.rebuild(x, self.el)
        raise Unknown(t.show(x, 3)[:80])

    def pick(self, c, x, y):
        if c.op == "not":
            c, x, y = c.args[0], y, x
        if c.op == "eq0" and multiple(c.args[0], self.a, self.den) is not None:
            return self.el(y)             # three points on a line are excluded
        raise Unknown("choice by " + t.show(c, 3)[:80])


def multiple(x, a, den):
    """k with x == k * a / den or x == k * a, if any."""
    for r in (t.div(a, den), a):
        for k in (1, -1, 2, t.q(1) / 2):
            if t.is_zero(t.sub(x, t.scale(r, k))):
                return k
    return None


def kept(w, K):
    """Is the inner sample of point world w in the index set K = first, inner ones, last?"""
    inner = None
    if K.op == "store":
        parts = {}
        while K.op == "store":
            parts.setdefault(K.args[1], K.args[2])
            K = K.args[0]
        inner = parts.get(arr.slc(ONE, num(-1)))
        ends = (parts.get(ZERO), parts.get(num(-1)))
    elif K.op == "app" and K.args[0] == "concat1" and len(K.args) == 4:
        inner, ends = K.args[2], (K.args[1], K.args[3])
    elif K.op == "app" and K.args[0] == "nonzero1":
        raise Unknown("kept samples " + t.show(K, 3)[:80])
    if inner is None or None in ends:
        raise Unknown("kept samples " + t.show(K, 3)[:80])
    st = lambda y: st(y.args[-1]) if y.op == "app" and y.args[0] == "cast" else y.args[0][1] if y.op == "stack" and len(y.args) == 1 else y
    if st(ends[0]) is not ZERO or st(ends[1]) is not t.sub(w.n, ONE):
        raise Wrong("first or last sample is not kept: %s, %s" % (t.show(ends[0], 3), t.show(ends[1], 3)))
    inner = st(inner)
    if inner.op == "idx" and inner.args[0].op == "app" and inner.args[0].args[0] == "arange" and isb(inner.args[1]):
        ar = inner.args[0]
        lo = ar.args[1] if len(ar.args) > 2 else ZERO
        return w.tr(w.at(inner.args[1], t.sub(sym("i"), lo)))
    return w.source(inner)


def parabol(prog, rep, label, qual):
    r = enter(prog, qual, args=[arrin("T"), arrin("S")])
    rep.covered(r)
    x = r.returned
    if x.op != "tuple" or len(x.args) != 5:
        rep.undecided(label, R_VERTEX, where(r), "returns " + t.show(x, 1)[:80])
        return
    gs = {b: {y for y in t.walk(x.args[1]) if y.op == "idx" and y.args[0] is sym(b) and not isb(y.args[1]) and y.args[1].op != "slice"} for b in "TS"}
    ks = {y.args[1] for b in gs for y in gs[b]}
    if len(gs["S"]) == 1 and ks == {list(gs["S"])[0].args[1]} and not gs["T"] and t.has(x.args[1], lambda y: y.op == "idx" and y.args[0] is sym("T")):
        rep.bad(label + ": kept samples", R_KEEP, where(r), "the time axis is not taken at the samples kept of the signal")
        return
    if len(ks) != 1 or any(len(v) != 1 for v in gs.values()):
        rep.undecided(label, R_KEEP, where(r), "%d sets of kept samples" % len(ks))
        return
    K = ks.pop()
    for sx, sy in product((1, 0, -1), repeat=2):
        for asked, v in explore(lambda: Point(r.I, sx, sy), lambda w: kept(w, K)):
            nm = "%s: kept samples, slopes %s,%s" % (label, sg(sx), sg(sy))
            if v is True or v is False:
                if v == ((sx, sy) != (0, 0)):
                    rep.ok(nm, R_KEEP, where(r), "")
                else:
                    rep.bad(nm, R_KEEP, where(r), "is %skept" % ("" if v else "not "))
            elif v.startswith("Wrong"):
                rep.bad(nm, R_KEEP, where(r), v[7:])
            else:
                rep.undecided(nm, R_KEEP, where(r), v[9:])
    T, S = list(gs["T"])[0], list(gs["S"])[0]
    for j, (what, s) in enumerate((("maxima", -1), ("minima", 1))):
        for k, kind in enumerate(("positions", "values")):
            nm = "%s: %s of %s" % (label, kind, what)
            rep.guard(nm, R_VERTEX, lambda: vertex(rep, nm, r, T, S, x.args[2 * j + k], kind, s))
    zeros(rep, label, r, x.args[4])


def vertex(rep, nm, r, T, S, o, kind, s):
    P = Parab(T, S)
    try:
        v = P.el(o)
    except Unknown as e:
        rep.undecided(nm, R_VERTEX, where(r), str(e))
        return
    # position: v = -b / 2a; value: c - b^2 / 4a (coefficients over the common denominator)
    want = t.neg(t.div(P.b, t.scale(P.a, 2))) if kind == "positions" else t.div(t.sub(t.scale(t.mul(P.a, P.c), 4), t.mul(P.b, P.b)), t.scale(t.mul(P.a, P.den), 4))
    if t.is_zero(t.sub(v, want)):
        rep.ok(nm, R_VERTEX, where(r), "identity of rational functions in six samples")
    else:
        rep.bad(nm, R_VERTEX, where(r), "%s, which is not the vertex" % t.show(v, 3)[:120])
    pos = t.neg(t.div(P.b, t.scale(P.a, 2)))
    p, z, q = (P.sym["T", i] for i in range(3))
    half = t.q(1) / 2
    need = {"before the midpoint to the next sample": t.sub(pos, t.scale(t.add(z, q), half)),
            "after the midpoint from the previous sample": t.sub(t.scale(t.add(z, p), half), pos),
            "parabola opens the right way": t.scale(t.div(P.a, P.den), -s)}
    seen = {}
    todo, lits = list(P.masks), []
    while todo:
        m = todo.pop()
        if m.op == "and":
            todo += m.args
        elif m.op == "not" and m.args[0].op in ("lt0", "le0"):
            lits.append(("le0" if m.args[0].op == "lt0" else "lt0", t.neg(m.args[0].args[0]), m))
        else:
            lits.append((m.op, m.args[0] if m.op in ("lt0", "le0", "eq0") else None, m))
    for op, y, m in lits:
        hit = None
        if op in ("lt0", "le0"):
            for w, ref in need.items():
                if any(t.is_zero(t.sub(y, t.scale(ref, k))) for k in (1, 2, half)):
                    hit = w
        if hit is None:
            (rep.bad if op in ("lt0", "le0", "eq0") else rep.undecided)(nm + ", selection", R_WINDOW, where(r), "extra condition %s" % t.show(m, 3)[:120])
            return
        seen[hit] = op
    miss = [w for w in need if w not in seen]
    if miss:
        rep.bad(nm + ", selection", R_WINDOW, where(r), "missing: " + ", ".join(miss))
    elif sorted(list(seen.get(w) for w in list(need)[:2])) != ["le0", "lt0"]:
        rep.bad(nm + ", selection", R_WINDOW, where(r), "a vertex exactly half-way is reported %s" % ("twice" if "le0" in seen.values() else "never"))
    else:
        rep.ok(nm + ", selection", R_WINDOW, where(r), "window and orientation")


# ------------------------------------------------------------------ small signals
def signals():
    out = [list(v) for n in (5, 6) for v in product((-1, 0, 1), repeat=n) if n == 5 or v[0] >= 0 and v[-1] >= 0]
    tiny, huge = t.q(Fraction(1, 10 ** 15)), 10 ** 9
    for v in ((0, 1, 0, -1, 0, 2, 1), (3, 1, 2, 1, 5, 5, 2, 4), (-2, 1, -1, 3, 3, 3, -4, 0, 0, 2)):
        out += [list(v), [y * tiny for y in v], [y + huge for y in v], [y * huge for y in v], [y * tiny + huge for y in v]]
        out.append([huge * (k == 2) + tiny * y for k, y in enumerate(v)])
        out.append([y + k * 10 for k, y in enumerate(v)])
    return out


def runs_of(S, f):
    k = 0
    while k < len(S):
        j = k
        while j + 1 < len(S) and f(k, j + 1):
            j += 1
        yield k, j
        k = j + 1


def peaks(S, up):
    """for every extremum the indices that may stand for it"""
    out = []
    for k, j in runs_of(S, lambda a, b: S[a] == S[b]):
        if k > 0 and j < len(S) - 1 and (S[k - 1] < S[k] > S[j + 1] if up else S[k - 1] > S[k] < S[j + 1]):
            out.append({(k + j) // 2, (k + j + 1) // 2})
    return out


def crossings(S):
    out = [{k} for k in range(len(S) - 1) if S[k] * S[k + 1] < 0]
    out += [{(k + j) // 2, (k + j + 1) // 2} for k, j in runs_of(S, lambda a, b: S[a] == S[b] == 0) if S[k] == 0]
    return sorted(out, key=min)


def vertices(T, S):
    """(times, values) of the maxima, of the minima; None when three kept samples lie on a line or a vertex is half-way between two"""
    keep = [k for k in range(len(S)) if k in (0, len(S) - 1) or not S[k - 1] == S[k] == S[k + 1]]
    T, S = [Fraction(T[k]) for k in keep], [Fraction(S[k]) for k in keep]
    out = ([], []), ([], [])
    for p, z, q, sp, s0, sn in zip(T, T[1:], T[2:], S, S[1:], S[2:]):
        d = (p - z) * (p - q) * (z - q)
        a = (sp * (z - q) + s0 * (q - p) + sn * (p - z)) / d
        if not a:
            return None
        b = -(sp * (z * z - q * q) + s0 * (q * q - p * p) + sn * (p * p - z * z)) / d
        v = -b / (2 * a)
        if v in ((z + p) / 2, (z + q) / 2):
            return None
        if (z + p) / 2 < v < (z + q) / 2:
            i = 0 if a < 0 else 1
            out[i][0].append(v)
            out[i][1].append(s0 + a * (v * v - z * z) + b * (v - z))
    return out


def instances(prog, rep, label, qual, para):
    """The extracted terms folded at small signals; a difference from the definition is a counterexample."""
    from .refute import Numeric
    from .small import OutOfTable
    import numpy as np
    r = enter(prog, qual, args=[arrin("T"), arrin("S")])
    rep.covered(r)
    x = r.returned
    if x.op != "tuple" or len(x.args) != 5:
        return
    done = 0
    start = time.time()
    for n_, S in enumerate(signals()):
        if time.time() - start > 40:
            break
        n = len(S)
        T = [k + (Fraction(k * k % 5, 7) if para and n_ % 2 else 0) for k in range(n)]
        tab = lambda v: np.array([num(t.q(y)) for y in v] + [None], dtype=object)[:-1]
        ref = vertices(T, S) if para else None
        if para and ref is None:
            continue
        N = Numeric({sym("S"): tab(S), sym("T"): tab(T)})
        for k in range(5):
            try:
                got = [Fraction(y.args[0]) for y in N.nums(x.args[k]).reshape(-1)]
            except (Unknown, OutOfTable, ZeroDivisionError, KeyError, ValueError, TypeError, AttributeError, IndexError):
                continue
            done += 1
            if k == 4:
                w = crossings(S)
                ok = len(w) == len(got) and all(g in e for g, e in zip(got, w))
            elif para:
                w = ref[k // 2][k % 2]
                ok = w == got
            else:
                w = peaks(S, k < 2)
                if k % 2 == 0:
                    ok = len(w) == len(got) and all(g in e for g, e in zip(got, w))
                else:
                    w = [S[min(e)] for e in w]
                    ok = w == got
            if not ok:
                rep.bad("%s: %s of a small signal" % (label, ("positions of maxima", "values of maxima", "positions of minima", "values of minima", "zero crossings")[k]), R_ZC if k == 4 else R_VERTEX if para else R_PT, where(r),
                        "signal %s: %s, by definition %s" % ([float(y) for y in S], [float(y) for y in got], [sorted(e) if isinstance(e, set) else float(e) for e in w]))
                return
    if done:
        rep.ok(label + ": small signals", R_VERTEX if para else R_PT, where(r), "%d of %d lists read" % (done, 5 * (n_ + 1)))


def check(prog, rep, tier):
    for label, q, para in (("EMD parabolic", "PyEMD.EMD.EMD._find_extrema_parabol", True), ("EMD simple", "PyEMD.EMD.EMD._find_extrema_simple", False),
                           ("numba simple", "PyEMD.experimental.jitemd._find_extrema_simple", False), ("numba parabolic", "PyEMD.experimental.jitemd._find_extrema_parabol", True),
                           ("MATLAB", "PyEMD.EMD_matlab.EMD.findExtrema", False)):
        rep.guard(label + ": small signals", R_PT, lambda q=q, label=label, para=para: instances(prog, rep, label, q, para))
    for label, q in (("EMD parabolic", "PyEMD.EMD.EMD._find_extrema_parabol"), ("numba parabolic", "PyEMD.experimental.jitemd._find_extrema_parabol")):
        rep.guard(label, R_VERTEX, lambda q=q, label=label: parabol(prog, rep, label, q))
    for label, q, base in (("EMD simple", "PyEMD.EMD.EMD._find_extrema_simple", "T"),
                           ("numba simple", "PyEMD.experimental.jitemd._find_extrema_simple", "index"),
                           ("MATLAB", "PyEMD.EMD_matlab.EMD.findExtrema", "T")):
        rep.guard(label, R_PT, lambda q=q, label=label, base=base: simple(prog, rep, label, q, base))
