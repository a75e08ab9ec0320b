"""Array terms over vectors of a fixed length, written out entry by entry: each entry becomes a term over the entries of the inputs.

Two terms for the same vector are equal when their entries are equal rational functions; a difference is one for all inputs in general position."""
from .common import *
from fractions import Fraction


class NoUnroll(Exception):
    pass


def rat(x):
    return x.args[0] if x.op == "num" else None


class OutOfRange(NoUnroll):
    """An index outside a vector: the code would raise."""


class Fill:
    """A vector of one value except at some positions, its length not (yet) known."""

    def __init__(self, value, at):
        self.value, self.at = value, at

    def sized(self, n):
        out = [self.value] * n
        for k, v in self.at:
            if not -n <= k < n:
                raise NoUnroll("position %d of %d" % (k, n))
            out[k] = v
        return out

    def get(self, k):
        for j, v in reversed(self.at):
            if j == k:
                return v
            if (j < 0) != (k < 0):
                raise NoUnroll("length needed")
        return self.value


class Undecided(Exception):
    """A condition the world does not settle."""

    def __init__(self, cond):
        self.cond = cond


class Unroll:
    def __init__(self, vecs, env=None, I=None, fill=None, choices=None):
        """vecs: term -> list of entry terms; env: scalar term -> term; I: interpreter (for loops); fill: length of vectors created by filling"""
        self.vecs = dict(vecs)
        self.env = dict(env or {})
        self.memo = {}
        self.I, self.fill = I, fill
        self.choices = choices

    def at_iteration(self, vecs, env):
        u = Unroll(self.vecs, self.env, self.I, self.fill, self.choices)
        u.vecs.update(vecs)
        u.env.update(env)
        return u

    def loop(self, p):
        """Value of a loop-carried variable after a counted loop without early exit."""
        key = p.args[0]
        lp = self.I.loops.get(key) if self.I is not None else None
        if lp is None or lp.get("n") is None or lp.get("breaks") or lp.get("rets"):
            raise NoUnroll("loop %s" % key)
        n = self.integer(lp["n"])
        need = [p]
        for q in need:
            back = self.I.phis[q].get("back")
            if back is None:
                raise NoUnroll("loop variable %s" % t.show(q, 1))
            for y in t.walk(back):
                if y.op == "phi" and y.args[0] == key and y not in need:
                    need.append(y)
        state = {q: self(self.I.phis[q]["init"]) for q in need}
        for k in range(n):
            u = self.at_iteration(state, {lp["iota"]: num(k)})
            state = {q: u(self.I.phis[q]["back"]) for q in need}
        return state[p]

    def __call__(self, x):
        if x in self.memo:
            return self.memo[x]
        v = self.go(x)
        self.memo[x] = v
        return v

    def scalar(self, x):
        v = self(x)
        if isinstance(v, list):
            raise NoUnroll("vector where a scalar is needed: %s" % t.show(x, 2)[:80])
        return v

    def integer(self, x):
        v = rat(self.scalar(x))
        if v is None or v != int(v):
            raise NoUnroll("index %s" % t.show(x, 2)[:80])
        return int(v)

    def lift(self, f, vs):
        n = {len(v) for v in vs if isinstance(v, list)}
        if not n:
            return f(*vs)
        if len(n - {1}) > 1:
            raise OutOfRange("lengths %s do not match" % sorted(n))
        n = 0 if 0 in n else max(n)
        return [f(*[(v[i] if len(v) > 1 else v[0]) if isinstance(v, list) else v for v in vs]) for i in range(n)]

    def truth(self, x):
        op = x.op
        if op == "and":
            return all(self.truth(y) for y in x.args)
        if op == "or":
            return any(self.truth(y) for y in x.args)
        if op == "not":
            return not self.truth(x.args[0])
        v = self.scalar(x)
        if v.op == "bool":
            return v.args[0]
        if v.op == "num":
            return v.args[0] != 0
        if self.choices is None:
            raise NoUnroll("condition %s" % t.show(x, 3)[:80])
        return self.decide(v)

    def decide(self, v):
        if v.op == "not":
            return not self.decide(v.args[0])
        if v.op == "le0":
            return not self.decide(t.not_(v))
        if v in self.choices:
            return self.choices[v]
        if v.op == "lt0":
            w = t.lt0(t.neg(v.args[0]))          # no ties
            if w in self.choices:
                return not self.choices[w]
        if v.op == "eq0":
            return False
        raise Undecided(v)

    def sl(self, s, n):
        a = [None if y is NONE else self.integer(y) for y in s.args]
        if a[2] == 0:
            raise OutOfRange("slice step 0")
        return slice(*a)

    def index(self, b, i):
        if isinstance(b, Fill):
            if i.op != "slice" and i.op != "tuple":
                j = self(i)
                if not isinstance(j, (list, Fill)) and rat(j) is not None:
                    try:
                        return b.get(int(rat(j)))
                    except NoUnroll:
                        pass
            if self.fill is None:
                raise NoUnroll("length of a filled vector")
            b = b.sized(self.fill)
        if i.op == "slice":
            return b[self.sl(i, len(b))]
        if i.op == "tuple":
            v = self.index(b, i.args[0])
            for k in i.args[1:]:
                if isinstance(v, list) and v and isinstance(v[0], list) and i.args[0].op == "slice":
                    v = [self.index(row, k) for row in v]
                else:
                    v = self.index(v, k)
            return v
        j = self(i)
        if isinstance(j, Fill):
            j = [y if y.op == "bool" else (TRUE if rat(y) else FALSE) for y in j.sized(len(b))]
        elif j in (TRUE, ONE) and i.op in ("phi", "ite"):
            return b
        if isinstance(j, list):
            if j and all(q.op == "bool" for q in j):
                if len(j) != len(b):
                    raise NoUnroll("mask of another length")
                return [x for x, q in zip(b, j) if q.args[0]]
            return [self.at(b, q) for q in j]
        return self.at(b, j)

    def at(self, b, j):
        v = rat(j)
        if v is not None and v == int(v) and not -len(b) <= v < len(b):
            raise OutOfRange("index %s of %d" % (v, len(b)))
        if v is None or v != int(v):
            raise NoUnroll("index %s of %d" % (t.show(j, 2)[:60], len(b)))
        return b[int(v)]

    def go(self, x):
        op, a = x.op, x.args
        if x in self.vecs:
            return self.vecs[x]
        if x in self.env:
            return self.env[x]
        if op in ("num", "bool", "sym", "py"):
            return x
        if op == "poly":
            s = ZERO
            for m, c in a[0]:
                p = num(c)
                for z, e in m:
                    p = self.lift(t.mul, [p, self.lift(lambda q, e=e: t.powi(q, e), [self(z)])])
                s = self.lift(t.add, [s, p])
            return s
        if op in ("lt0", "le0", "eq0"):
            return self.lift(getattr(t, op), [self(a[0])])
        if op == "not":
            return self.lift(t.not_, [self(a[0])])
        if op in ("and", "or"):
            return self.lift(lambda *q: getattr(t, op + "_")(*q), [self(y) for y in a])
        if op == "ite":
            return self(a[1] if self.truth(a[0]) else a[2])
        if op == "idx":
            b = self(a[0])
            if not isinstance(b, (list, Fill)) and self.fill is not None and rat(b) is not None and a[0].op == "phi":
                b = Fill(b, [])          # a vector filled with one value
            if not isinstance(b, (list, Fill)):
                raise NoUnroll("indexing %s" % t.show(x, 2)[:80])
            return self.index(b, a[1])
        if op == "stack":
            out = []
            for k, y in a:
                v = self(y)
                out.extend([v] if k == "row" else v)
            return out
        if op == "tuple":
            return [self(y) for y in a]
        if op == "sumrows":
            v = self(a[0])
            s = ZERO
            for y in v:
                s = self.lift(t.add, [s, y])
            return s
        if op == "phi":
            return self.loop(x)
        if op == "store":
            b, i, v = self(a[0]), a[1], self(a[2])
            if isinstance(b, t.Term):
                b = Fill(b, ())
            if isinstance(b, Fill):
                if self.fill is not None:
                    b = b.sized(self.fill)
                else:
                    return Fill(b.value, b.at + ((self.integer(i), v),))
            b = list(b)
            pos = self.index([num(k) for k in range(len(b))], i)
            if not isinstance(pos, list):
                b[int(pos.args[0])] = v
            else:
                for k, q in enumerate(pos):
                    b[int(q.args[0])] = v[k] if isinstance(v, list) else v
            return b
        if op == "comp":
            n = self.integer(a[0])
            return [self(compbody(x, k)) for k in range(n)]
        if op == "app":
            return self.fun(str(a[0]), a[1:], x)
        raise NoUnroll(t.show(x, 2)[:80])

    def fun(self, f, a, x):
        if f in ("len", "size", "rows"):
            v = self(a[0])
            if isinstance(v, list):
                return num(len(v))
        if f == "dim" and a[1] is ONE:
            v = self(a[0])
            return num(len(v[0]))
        if f == "cast" and len(a) == 2 and "int" in str(a[0].args[0] if a[0].args else ""):
            return self.lift(lambda q: num(int(rat(q))) if rat(q) is not None else q, [self(a[1])])
        if f in ("cast", "copy", "np.array", "np.asarray"):
            return self(a[-1])
        if f == "np.ravel":
            out = []
            for y in self(a[0]):
                out.extend(y if isinstance(y, list) else [y])
            return out
        if f == "nonzero1":
            v = self(a[0])
            if not isinstance(v, list) or any(y.op != "bool" for y in v):
                raise NoUnroll("marks %s" % t.show(a[0], 2)[:80])
            return [num(k) for k, y in enumerate(v) if y.args[0]]
        if f == "np.delete" and len(a) == 3:
            m, k, ax = self(a[0]), self(a[1]), a[2]
            k = k[0] if k and isinstance(k[0], list) else k
            k = {int(rat(y)) for y in (k if isinstance(k, list) else [k])}
            drop = lambda row: [y for i, y in enumerate(row) if i not in {q % len(row) for q in k}]
            if ax is ONE:
                return [drop(row) for row in m]
            if ax is ZERO or ax is NONE:
                return drop(m)
        if f in ("hcat", "vcat"):
            ms = [self(y) for y in a]
            rows = [len(m) for m in ms if isinstance(m, list)]
            ms = [m.sized(rows[0] if rows else len({k for k, _ in m.at})) if isinstance(m, Fill) else m for m in ms]
            if f == "vcat":
                return [row for m in ms for row in m]
            if len({len(m) for m in ms}) != 1:
                raise NoUnroll("rows")
            return [[y for m in ms for y in m[i]] for i in range(len(ms[0]))] if isinstance(ms[0][0], list) else [y for m in ms for y in m]
        if f in ("np.abs", "abs"):
            def ab(q):
                if rat(q) is None:
                    raise NoUnroll("abs")
                return num(abs(rat(q)))
            return self.lift(ab, [self(a[0])])
        if f == "concat1":
            out = []
            for y in a:
                v = self(y)
                out.extend(v if isinstance(v, list) else [v])
            return out
        if f in ("np.sum", "sum", "builtin.sum") and len(a) == 1:
            s = ZERO
            for y in self(a[0]):
                s = t.add(s, y)
            return s
        if f == "np.mean" and len(a) == 1:
            v = self(a[0])
            s = ZERO
            for y in v:
                s = t.add(s, y)
            return t.scale(s, Fraction(1, len(v)))
        if f == "arange" and len(a) == 2:
            return [num(k) for k in range(self.integer(a[0]), self.integer(a[1]))]
        if f == "np.zeros" or f == "np.ones":
            n = self.integer(a[0])
            return [num(int(f == "np.ones"))] * n
        if f == "np.gradient":
            kw = {z.args[0].args[0]: z.args[1] for z in a if z.op == "tuple" and len(z.args) == 2 and z.args[0].op == "py"}
            a = [z for z in a if not (z.op == "tuple" and len(z.args) == 2 and z.args[0].op == "py")]
            order = self.integer(kw["edge_order"]) if "edge_order" in kw else 1
            if set(kw) - {"edge_order", "axis"} or order not in (1, 2) or len(a) > 2:
                raise NoUnroll("np.gradient with %s" % sorted(kw))
            y = self(a[0])
            n = len(y)
            h = self(a[1]) if len(a) > 1 else ONE
            X = h if isinstance(h, list) else [t.scale(h, k) for k in range(n)]
            d = lambda i, j: t.div(t.sub(y[j], y[i]), t.sub(X[j], X[i]))
            out = [d(0, 1)]
            for i in range(1, n - 1):
                hd, hs = t.sub(X[i + 1], X[i]), t.sub(X[i], X[i - 1])
                out.append(t.div(t.add(t.mul(hd, d(i - 1, i)), t.mul(hs, d(i, i + 1))), t.add(hd, hs)))
            out.append(d(n - 2, n - 1))
            if order == 2:
                # slope at an end of the parabola through the three points there
                for i, j, k, m in ((0, 0, 1, 2), (n - 1, n - 1, n - 2, n - 3)):
                    h1, h2 = t.sub(X[k], X[j]), t.sub(X[m], X[j])
                    out[i] = t.sub(t.div(t.mul(d(j, k), h2), t.sub(h2, h1)), t.div(t.mul(d(j, m), h1), t.sub(h2, h1)))
            return out
        if f in ("np.flip", "flip0", "np.flipud") and len(a) == 1:
            return self(a[0])[::-1]
        if f in ("max", "min", "np.maximum", "np.minimum"):
            vs = [self(y) for y in a]
            if len(vs) == 1 and isinstance(vs[0], list):
                vs = vs[0]
            r = [rat(v) if isinstance(v, t.Term) else None for v in vs]
            if None not in r:
                return num((max if "max" in f else min)(r))
            raise NoUnroll(t.show(x, 2)[:80])
        if f == "np.where3":
            return self.lift(lambda c, p, q: p if c is TRUE else (q if c is FALSE else t.ite(c, p, q)), [self(y) for y in a])
        raise NoUnroll("%s in %s" % (f, t.show(x, 2)[:80]))


def compbody(x, k):
    return arr.idx(x, num(k))


def same(u, v):
    """"equal" | "different" (rational functions of the inputs' entries)."""
    if isinstance(u, list) != isinstance(v, list) or isinstance(u, list) and len(u) != len(v):
        return "different"
    for p, q in zip(u, v) if isinstance(u, list) else [(u, v)]:
        if isinstance(p, list) or isinstance(q, list):
            r = same(p, q)
            if r != "equal":
                return r
            continue
        if not t.is_zero(t.sub(p, q)):
            return "different"
    return "equal"


def entries(name, n):
    return [sym("%s_%d" % (name, k)) for k in range(n)]
