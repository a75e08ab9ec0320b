"""A counterexample to the equality of two terms: numbers for the entries of the input arrays at which the terms have different values.
Used only to turn 'not shown equal' into 'different'; without a counterexample the obligation stays undecided."""
from .common import *
from .small import Small, OutOfTable, bc
from fractions import Fraction
import math
import numpy as np


class Numeric(Small):
    def truth(self, c):
        if c.op in ("lt0", "le0", "eq0"):
            v = self.number(c.args[0])
            return v < 0 if c.op == "lt0" else v <= 0 if c.op == "le0" else v == 0
        if c.op == "ite":
            return self.truth(c.args[1] if self.truth(c.args[0]) else c.args[2])
        if c.op == "num":
            return c.args[0] != 0
        if c.op == "sym" and isinstance(self.env.get(c), t.Term) and self.env[c].op == "num":
            return self.env[c].args[0] != 0
        if c.op == "app" and c.args[0] in ("np.allclose", "allclose", "bool", "truthy"):
            return self.truth(self.ev(c))
        if c.op == "app" and c.args[0] in ("np.sum", "sum", "np.count_nonzero", "count_nonzero", "len", "size", "np.max", "np.min"):
            return self.number(c) != 0
        return super().truth(c)

    def number(self, x):
        v = self.scalar(x)
        if isinstance(v, t.Term) and v.op == "num":
            return Fraction(v.args[0])
        if isinstance(v, t.Term) and v.op == "bool":
            return Fraction(int(v.args[0]))
        raise Unknown("no number: " + t.show(x, 2)[:80])

    def nums(self, x):
        v = self.ev(x)
        if not isinstance(v, np.ndarray):
            v = np.array(v, dtype=object).reshape(1)
        return v

    def ev_(self, x):
        op, a = x.op, x.args
        if op in ("and", "or", "not", "ite") and not any(isinstance(self.ev(y), np.ndarray) for y in a if op != "ite"):
            if op == "ite":
                return self.ev(a[1] if self.truth(a[0]) else a[2])
            return TRUE if self.truth(x) else FALSE
        if op == "sumrows":
            v = self.ev(a[0])
            out = v[0]
            for k in range(1, len(v)):
                out = self.plus(out, v[k])
            return out
        return super().ev_(x)

    def array(self, xs):
        out = np.empty(len(xs), dtype=object)
        for k, y in enumerate(xs):
            out[k] = y
        return out

    def app(self, x, f, args):
        pos, kw = self.kwargs(args)
        if f in ("np.any", "np.all", "any", "all") and len(pos) == 1 and not kw:
            vs = [self.truth(y) for y in self.nums(pos[0]).reshape(-1)]
            return TRUE if (any if f.endswith("any") else all)(vs) else FALSE
        if f in ("np.sum", "sum", "np.mean", "mean", "np.var") and len(pos) == 1 and not kw:
            v = self.nums(pos[0]).reshape(-1)
            if not v.size:
                raise OutOfTable("nothing to average")
            s = ZERO
            for y in v:
                s = t.add(s, y if y.op != "bool" else num(int(y.args[0])))
            if f.endswith("sum"):
                return s
            m = t.div(s, num(len(v)))
            if f.endswith("mean"):
                return m
            q = ZERO
            for y in v:
                q = t.add(q, t.mul(t.sub(y, m), t.sub(y, m)))
            return t.div(q, num(len(v)))
        if f in ("np.abs", "abs", "np.fabs") and len(pos) == 1:
            g = lambda y: num(abs(y.args[0])) if y.op == "num" else app("np.abs", y)
            v = self.ev(pos[0])
            return np.vectorize(g, otypes=[object])(v) if isinstance(v, np.ndarray) else g(v)
        if f in ("np.ptp", "ptp") and len(pos) == 1:
            v = [Fraction(y.args[0]) for y in self.nums(pos[0]).reshape(-1)]
            return num(t.q(max(v) - min(v)))
        if f in ("np.dot", "dot", "matmul") and len(pos) == 2:
            u, v = self.nums(pos[0]), self.nums(pos[1])
            if u.ndim == v.ndim == 1:
                s = ZERO
                for p, q in zip(u, v):
                    s = t.add(s, t.mul(p, q))
                return s
        if f in ("np.count_nonzero", "count_nonzero") and len(pos) == 1 and not kw:
            return num(sum(self.truth(y) for y in self.nums(pos[0]).reshape(-1)))
        if f in ("size", "np.size") and len(pos) == 1:
            return num(self.nums(pos[0]).size)
        if f in ("np.allclose", "allclose") and len(pos) >= 2:
            rt = self.number(kw.get("rtol", pos[2] if len(pos) > 2 else num(Fraction("1e-5"))))
            at = self.number(kw.get("atol", pos[3] if len(pos) > 3 else num(Fraction("1e-8"))))
            u, v = self.ev(pos[0]), self.ev(pos[1])
            g = lambda p, q: TRUE if abs(Fraction(p.args[0]) - Fraction(q.args[0])) <= at + rt * abs(Fraction(q.args[0])) else FALSE
            w = bc(g, u, v) if isinstance(u, np.ndarray) or isinstance(v, np.ndarray) else g(u, v)
            return TRUE if all(y is TRUE for y in (w.reshape(-1) if isinstance(w, np.ndarray) else [w])) else FALSE
        if str(f).endswith(("empty", "zeros", "ones")) and len(pos) > 1 and pos[-1].op == "py":
            return super().app(x, f, pos[:-1])
        if f == "nonzero1" and len(pos) == 1:
            return self.array([num(k) for k, y in enumerate(self.nums(pos[0])) if self.truth(y)])
        if f in ("np.sort", "sorted") and len(pos) == 1 and not kw:
            v = self.nums(pos[0])
            if v.ndim == 1:
                return self.array(sorted(v, key=lambda y: Fraction(y.args[0])))
        if f == "concat1":
            return self.array([y for a in pos for y in self.nums(a).reshape(-1)])
        if f in ("np.round", "round", "np.rint", "np.floor", "np.ceil", "int", "np.sign") and len(pos) == 1 and not kw:
            g = {"np.floor": math.floor, "np.ceil": math.ceil, "int": int, "np.sign": lambda q: (q > 0) - (q < 0)}.get(f, round)
            v = self.ev(pos[0])
            h = lambda y: num(t.q(g(Fraction(y.args[0] if y.op == "num" else int(y.args[0])))))
            return np.vectorize(h, otypes=[object])(v) if isinstance(v, np.ndarray) else h(v)
        if f == "cast" and len(pos) == 2:
            d, v = (str(pos[0].args[0]), self.ev(pos[1])) if pos[0].op in ("py", "str") else ("", None)
            if isinstance(v, t.Term) and v.op == "num" and Fraction(v.args[0]).denominator == 1:
                return v
            if d.rsplit(".", 1)[-1].startswith(("int", "uint", "float", "double")) and isinstance(v, np.ndarray):
                vs = [y if y.op == "num" else num(int(y.args[0])) for y in v.reshape(-1) if y.op in ("num", "bool")]
                if len(vs) == v.size and all(Fraction(y.args[0]).denominator == 1 for y in vs):
                    return self.array(vs).reshape(v.shape)
        if f in ("bool", "truthy", "float", "int_") and len(pos) == 1:
            v = self.ev(pos[0])
            return v if f == "float" else TRUE if self.truth(v) else FALSE
        return super().app(x, f, args)


class Draw:
    def __init__(self, seed):
        self.s = seed * 2654435761 % 2 ** 32 or 1

    def __call__(self, n):
        self.s = (self.s * 1103515245 + 12345) % 2 ** 31
        return (self.s >> 8) % n


def refute(got, want, arrays, scalars, rounds=1500, shapes=(3, 5, 4)):
    """arrays: {symbol name: rank}; scalars: names.  A description of values at which the two differ, or None."""
    refute.done = 0
    for k in range(rounds):
        d = Draw(k + 1)
        n = shapes[k % len(shapes)]
        env = {}
        span = (3, 5, 11, 41)[d(4)]
        # also at the scale where energies meet their absolute threshold
        small = num(Fraction(1, (1, 1, 1, 10 ** 5, 2 * 10 ** 5, 10 ** 6)[d(6)])) if "new" in arrays else ONE
        for a, rk in arrays.items():
            shape = {1: (n,), 2: (2 if a.startswith("e") else n - 1, n), 3: (2, n - 1, n)}[rk]
            v = np.empty(shape, dtype=object)
            lo = {"eMax": (1, 1, 1, 0, -1), "eMin": (-1, -1, -1, 0, 1)}.get(a, (0,) * 5)[d(5)]
            off = 0 if a.startswith("e") else (0, 0, span + 1, -span - 1)[d(4)]
            for ix in np.ndindex(*shape):
                x = d(2 * span + 1) - span
                if lo:
                    x = lo * (abs(x) + 1)
                v[ix] = num(x + off)
            if a in ("old", "prev") and d(3):
                # close to the other one, as in a sifting round
                b = {"old": "new", "prev": "imf"}[a]
                if sym(b) in env:
                    for ix in np.ndindex(*shape):
                        v[ix] = t.add(env[sym(b)][ix], num(Fraction(d(5) - 2, (1, 4, 20, 100)[d(4)])))
            if a == "image" and d(2) and sym("IMFs") in env:
                w = env[sym("IMFs")]
                for ix in np.ndindex(*shape):
                    v[ix] = t.add(t.add(w[(0,) + ix], w[(1,) + ix]), num(Fraction(d(3) - 1, (1, 10 ** 4, 10 ** 7, 10 ** 9)[d(4)])))
            env[sym(a)] = v
        if small is not ONE:
            for a in ("new", "old"):
                if sym(a) in env:
                    v = env[sym(a)]
                    for ix in np.ndindex(*v.shape):
                        v[ix] = t.mul(small, v[ix])
        for s in scalars:
            env[sym(s)] = num(t.q((Fraction(1, 10 ** 9), Fraction(0), Fraction(10 ** 9), Fraction(10 ** 9), Fraction(1 + d(20), (1, 3, 10, 100, 1000)[d(5)]))[d(5)]))
        if scalars:
            s = sym(scalars[d(len(scalars))])
            cs = critical((got, want), s, env)
            if cs:
                j = d(len(cs))
                env[s] = num(t.q((cs[j], (cs[j] + cs[min(j + 1, len(cs) - 1)]) / 2)[d(2)]))
        try:
            a, b = value(Numeric(env), got), value(Numeric(env), want)
        except (Unknown, OutOfTable, ZeroDivisionError, KeyError, ValueError, TypeError, AttributeError, IndexError):
            continue
        refute.done += 1
        if a != b:
            return "%s instead of %s for %s" % (a, b, ", ".join("%s = %s" % (x.args[0], flat(v)) for x, v in env.items()))
    return None


def critical(xs, s, env):
    """values of the scalar s at which a comparison with it changes"""
    out = set()
    for y in {y for x in xs for y in t.walk(x) if y.op in ("lt0", "le0", "eq0")}:
        e = y.args[0]
        a0, a1 = t.subst(e, {s: ZERO}), t.subst(e, {s: ONE})
        k = t.sub(a1, a0)
        if a0 is a1 or k.op != "num" or not k.args[0]:
            continue
        try:
            out.add(-Numeric(env).number(a0) / Fraction(k.args[0]))
        except (Unknown, OutOfTable, ZeroDivisionError, KeyError, ValueError, TypeError, AttributeError, IndexError):
            pass
    return sorted(v for v in out if v > 0)


def flat(v):
    return str([t.show(y, 2) for y in v.reshape(-1)]).replace("'", "") if isinstance(v, np.ndarray) else t.show(v, 2)


def value(sm, x):
    if x.op in ("and", "or", "not", "lt0", "le0", "eq0", "bool") or x.op == "app" and x.args[0] in ("np.any", "np.all", "np.allclose", "truthy", "bool"):
        return sm.truth(x)
    v = sm.ev(x)
    if isinstance(v, t.Term) and v.op == "bool":
        return v.args[0]
    if isinstance(v, t.Term) and v.op == "num":
        return Fraction(v.args[0])
    if isinstance(v, t.Term) and v.op in ("lt0", "le0", "eq0", "and", "or", "not"):
        return sm.truth(v)
    raise Unknown("no value")
