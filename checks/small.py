"""Entry-wise reading of an array term for a small fixed shape: every array becomes a table of terms, so that two ways of writing the same table compare equal.  An operation without a rule raises Unknown."""
from .common import *
from fractions import Fraction
import numpy as np


def table(name, *shape):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = sym("%s%s" % (name, list(ix)))
    return a


def rowfun(name, a, axis, *extra):
    """an operation acting on whole rows whose meaning is not needed: entry k is name(row, k)"""
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        row = app("row", *m[ix])
        for k in range(m.shape[-1]):
            out[ix + (k,)] = app(name, row, *extra, num(k))
    return np.moveaxis(out, -1, axis)


def over(top, es):
    ns = [y for y in es if y.op == "num"]
    if len(ns) > 1:
        es = {y for y in es if y.op != "num"} | {(max if top else min)(ns, key=lambda y: y.args[0])}
    if len(es) == 1:
        return next(iter(es))
    return app("maxover" if top else "minover", *sorted(es, key=lambda y: y.id))


def compare0(op, y):
    """y = 0 where y is the difference between an extreme over some values and one of them"""
    if op == "eq0":
        for z in t.walk(y):
            if z.op == "app" and z.args[0] in ("maxover", "minover"):
                for k in (1, -1):
                    b = t.sub(z, t.mul(num(k), y))       # y = k (z - b)
                    if b in z.args[1:]:
                        return t.and_(*[t.le0(t.sub(e, b) if z.args[0] == "maxover" else t.sub(b, e)) for e in z.args[1:]])
    return {"eq0": t.eq0, "lt0": t.lt0, "le0": t.le0}[op](y)


def reconstruction(seed, mask, method):
    """morphological reconstruction of the whole image, opaque; erosion is dilation of the negatives"""
    neg = np.vectorize(t.neg, otypes=[object])
    if method == "erosion":
        return neg(reconstruction(neg(seed), neg(mask), "dilation"))
    if seed.shape != mask.shape:
        raise OutOfTable("seed and mask of different shapes")
    a, b = app("table", *seed.reshape(-1)), app("table", *mask.reshape(-1))
    out = np.empty(mask.shape, dtype=object)
    for ix in np.ndindex(*mask.shape):
        out[ix] = app("dilated", a, b, *[num(k) for k in ix])
    return out


def pointwise(f, y):
    if f == "real" and y.op == "app" and y.args[0] == "hilbert":
        return y.args[1].args[1 + int(y.args[2].args[0])]
    return app(f, y)


def thresholds(x, atoms=("len", "dim", "shape"), top=64):
    """numbers at which a condition of x on sizes alone may change, with their neighbours"""
    out = set()

    def size(z):
        if z.op in ("iota", "bv") or z.op == "app" and z.args[0] in atoms:
            return True
        return z.op == "idx" and z.args[0].op == "app" and z.args[0].args[0] == "shape"
    for y in t.walk(x):
        if y.op == "slice" or y.op == "app" and y.args[0] in ("np.minimum", "np.maximum", "min", "max"):
            for z in y.args:
                if isinstance(z, t.Term) and z.op == "num" and Fraction(z.args[0]).denominator == 1:
                    out |= {abs(int(z.args[0])) + d for d in (0, 1, 2)} if abs(z.args[0]) > 2 else set()
        if y.op in ("lt0", "le0", "eq0"):
            cs = {}
            for m, c in t.as_poly(y.args[0]).items():
                cs[m] = c
            k = abs(cs.pop((), 0))
            if cs and all(all(size(z) for z, _ in m) for m in cs):
                for m, c in cs.items():
                    q = k / abs(c)
                    out |= {int(q) + d for d in (-1, 0, 1, 2)}
                    r = int(q ** 0.5) if q < 10 ** 9 else 0
                    if len(m) == 2:
                        out |= {r, r + 1}
    return sorted(k for k in out if 1 <= k <= top)


class NoValue(Exception):
    pass


def valuation(x, env):
    """the number (or truth value) of an entry at given pixel values; reconstruction is worked out by its definition"""
    memo = {}

    def dilated(seed, mask):
        cur = {k: min(v, mask[k]) for k, v in seed.items()}
        while True:
            nxt = {}
            for (i, j) in cur:
                nb = max(cur.get((i + a, j + b), cur[i, j]) for a in (-1, 0, 1) for b in (-1, 0, 1))
                nxt[i, j] = min(nb, mask[i, j])
            if nxt == cur:
                return cur
            cur = nxt

    def go(y):
        if y in memo:
            return memo[y]
        op, a = y.op, y.args
        if y in env:
            v = env[y]
        elif op in ("num", "bool"):
            v = a[0]
        elif op == "poly":
            v = 0
            for m, c in a[0]:
                q = Fraction(c)
                for z, e in m:
                    b = Fraction(go(z))
                    if e < 0 and b == 0:
                        raise NoValue()
                    q *= b ** e
                v += q
        elif op in ("lt0", "le0", "eq0"):
            b = go(a[0])
            v = b < 0 if op == "lt0" else b <= 0 if op == "le0" else b == 0
        elif op in ("and", "or"):
            v = (all if op == "and" else any)([go(z) for z in a])
        elif op == "not":
            v = not go(a[0])
        elif op == "ite":
            v = go(a[1] if go(a[0]) else a[2])
        elif op == "app" and a[0] in ("maxover", "minover"):
            v = (max if a[0] == "maxover" else min)(go(z) for z in a[1:])
        elif op == "app" and a[0] in ("abs", "np.abs") and len(a) == 2:
            v = abs(go(a[1]))
        elif op == "app" and a[0] == "dilated":
            key = ("d", a[1], a[2])
            if key not in memo:
                sh = env["shape"]
                tab = [dict(zip(np.ndindex(*sh), (go(z) for z in q.args[1:]))) for q in a[1:3]]
                if any(tab[0][k] > tab[1][k] for k in tab[0]):
                    raise NoValue()
                memo[key] = dilated(*tab)
            v = memo[key][tuple(int(z.args[0]) for z in a[3:])]
        else:
            raise NoValue()
        memo[y] = v
        return v
    return go(x)


def witness(u, v, shape):
    """values at which two entries differ, or None"""
    ss = sorted({z for y in (u, v) for z in t.walk(y) if z.op == "sym"}, key=lambda z: z.id)
    if not ss or sym("uninitialised") in ss:
        return None
    seed = 12345
    grid = [Fraction(k, 2) for k in (0, 1, 2, 4)]
    for n in range(600):
        env = {"shape": shape}
        tiny = Fraction(1, (10 ** 6, 10 ** 9, 10 ** 13)[n % 3]) if n >= 500 else 1
        for z in ss:
            seed = (seed * 1103515245 + 12345) % 2 ** 31
            env[z] = 1 + grid[seed >> 16 & 3] * tiny if n >= 500 else grid[seed >> 16 & 3] * (Fraction(1, 8) if n % 3 == 1 else 1) + (Fraction(1, 3) if n % 3 == 2 else 0)
        try:
            a, b = valuation(u, env), valuation(v, env)
        except (NoValue, TypeError, ValueError, KeyError):
            continue
        if a != b:
            return {z: env[z] for z in ss}
    return None


class Small:
    ROWWISE = {"scipy.signal.hilbert": "hilbert", "np.unwrap": "unwrap"}
    POINTWISE = {"np.angle": "angle", "real": "real", "imag": "imag", "np.real": "real", "np.imag": "imag"}

    def __init__(self, env, facts=None):
        self.env = dict(env)
        self.facts = dict(facts or {})
        self.memo = {}

    def ev(self, x):
        if x in self.env:
            return self.env[x]
        if x in self.memo:
            return self.memo[x]
        v = self.ev_(x)
        if v is None:
            raise Unknown("no entry-wise reading of " + t.show(x, 2)[:80])
        self.memo[x] = v
        return v

    def scalar(self, x):
        v = self.ev(x)
        if isinstance(v, np.ndarray):
            if v.ndim == 0 or v.size == 1:
                return v.reshape(-1)[0]
            raise Unknown("a scalar is expected: " + t.show(x, 2)[:80])
        return v

    def integer(self, x):
        v = self.scalar(x)
        if isinstance(v, t.Term) and v.op == "num" and Fraction(v.args[0]).denominator == 1:
            return int(v.args[0])
        raise Unknown("an index of unknown value: " + t.show(x, 2)[:80])

    def index(self, x):
        if x.op == "slice":
            return slice(*[None if a is NONE else self.integer(a) for a in x.args])
        if x.op == "py" and x.args[0] is Ellipsis:
            return Ellipsis
        if x is NONE:
            return None
        v = self.ev(x)
        if isinstance(v, np.ndarray) and v.size and all(e.op == "bool" for e in v.reshape(-1)):
            return np.array([bool(e.args[0]) for e in v.reshape(-1)]).reshape(v.shape)
        if isinstance(v, np.ndarray):
            return np.array([int(e.args[0]) if e.op == "num" else self.integer(e) for e in v.reshape(-1)]).reshape(v.shape)
        return self.integer(x)

    def kwargs(self, args):
        pos, kw = [], {}
        for a in args:
            if isinstance(a, t.Term) and a.op == "tuple" and len(a.args) == 2 and isinstance(a.args[0], t.Term) and a.args[0].op in ("py", "str") and isinstance(a.args[0].args[0], str):
                kw[a.args[0].args[0]] = a.args[1]
            else:
                pos.append(a)
        return pos, kw

    def truth(self, c):
        if c in (TRUE, FALSE):
            return c is TRUE
        if c in self.facts:
            return self.facts[c]
        n = t.not_(c)
        if n in self.facts:
            return not self.facts[n]
        if c.op in ("and", "or"):
            vs = [self.truth(a) for a in c.args]
            return all(vs) if c.op == "and" else any(vs)
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op in ("lt0", "le0", "eq0"):
            v = self.integer(c.args[0])
            return v < 0 if c.op == "lt0" else v <= 0 if c.op == "le0" else v == 0
        if c.op == "app" and c.args[0] in ("np.any", "np.all", "any", "all") and len(c.args) == 2:
            v = self.ev(c.args[1])
            vs = [self.truth(y) for y in (v.reshape(-1) if isinstance(v, np.ndarray) else v if isinstance(v, tuple) else [v])]
            return (any if c.args[0].endswith("any") else all)(vs)
        raise Unknown("whether " + t.show(c, 2)[:80])

    def ev_(self, x):
        op, a = x.op, x.args
        sh = arr.SHAPES.get(x)
        if sh:
            if len(sh) > 1 or any(isinstance(d, tuple) for d in next(iter(sh))):
                raise Unknown("array of unknown shape")
            out = np.empty([self.integer(d) for d in next(iter(sh))], dtype=object)
            out[...] = scalararr(a[1] if op == "comp" else sym("uninitialised"))
            return out
        if op in ("num", "sym", "py", "bool", "iota"):
            return x
        if op == "poly":
            tot = None
            for m, c in a[0]:
                p = num(c)
                for z, e in m:
                    v = self.ev(z)
                    if isinstance(v, tuple):
                        raise Unknown("arithmetic on a tuple")
                    if e < 0 and any(y is ZERO or isinstance(y, t.Term) and t.is_zero(y) for y in (v.reshape(-1) if isinstance(v, np.ndarray) else [v])):
                        raise OutOfTable("division by zero")
                    v = np.vectorize(lambda y: t.powi(y, e), otypes=[object])(v) if isinstance(v, np.ndarray) else t.powi(v, e)
                    p = bc(t.mul, p, v) if isinstance(p, np.ndarray) or isinstance(v, np.ndarray) else t.mul(p, v)
                tot = p if tot is None else self.plus(tot, p)
            return tot if tot is not None else ZERO
        if op == "idx":
            base, i = self.ev(a[0]), a[1]
            if not isinstance(base, np.ndarray):
                if isinstance(base, tuple):
                    k = self.integer(i)
                    if not -len(base) <= k < len(base):
                        raise OutOfTable("index %d of %d" % (k, len(base)))
                    return base[k]
                raise Unknown("indexing " + t.show(a[0], 2)[:80])
            ix = tuple(self.index(y) for y in i.args) if i.op == "tuple" else self.index(i)
            try:
                return base[ix]
            except IndexError:
                raise OutOfTable(t.show(x, 2)[:120])
        if op in ("eq0", "lt0", "le0"):
            v = self.ev(a[0])
            g = lambda y: compare0(op, y)
            return np.vectorize(g, otypes=[object])(v) if isinstance(v, np.ndarray) else g(v)
        if op in ("and", "or"):
            f = t.and_ if op == "and" else t.or_
            out = self.ev(a[0])
            for y in a[1:]:
                v = self.ev(y)
                out = bc(f, out, v) if isinstance(out, np.ndarray) or isinstance(v, np.ndarray) else f(out, v)
            return out
        if op == "not":
            v = self.ev(a[0])
            return np.vectorize(t.not_, otypes=[object])(v) if isinstance(v, np.ndarray) else t.not_(v)
        if op == "tuple":
            vs = [self.ev(y) for y in a]
            return tuple(vs)
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if op == "comp":
            n = self.integer(a[0])
            return self.stack([self.ev(arr.idx(x, num(k))) for k in range(n)])
        if op == "store" and len(a) == 3:
            return self.app(x, "store", a)
        if op == "listidx" or op == "app" and a[0] == "listidx":
            return np.array([self.ev(y) for y in a if isinstance(y, t.Term)] + [None], dtype=object)[:-1]
        if op == "app":
            return self.app(x, a[0], a[1:])
        return None

    def stack(self, vs):
        vs = [v if isinstance(v, np.ndarray) else np.array(v, dtype=object).reshape(()) for v in vs]
        if len({v.shape for v in vs}) > 1:
            raise OutOfTable("rows of different lengths")
        out = np.empty((len(vs),) + (vs[0].shape if vs else ()), dtype=object)
        for k, v in enumerate(vs):
            out[k] = v if v.ndim else v.item()
        return out

    @staticmethod
    def plus(u, v):
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            return bc(t.add, u, v)
        return t.add(u, v)

    def axis(self, a, kw, pos, at, default=-1):
        ax = kw.get("axis", pos[at] if len(pos) > at else None)
        ax = default if ax is None else self.integer(ax)
        return ax % a.ndim

    def extreme(self, top, pos, kw):
        """maximum (minimum) over a neighbourhood, borders by reflection"""
        if set(kw) - {"footprint", "size"}:
            return None
        v = self.ev(pos[0])
        fp = kw.get("footprint", pos[2] if len(pos) > 2 else None)
        sz = kw.get("size", pos[1] if len(pos) > 1 else None)
        if fp is not None and fp is not NONE:
            if fp.op == "app" and str(fp.args[0]).endswith("generate_binary_structure"):
                r, c = (self.integer(y) for y in fp.args[1:3])
                if r != v.ndim:
                    raise OutOfTable("neighbourhood of another rank")
                offs = [o for o in np.ndindex(*(3,) * r) if sum(abs(k - 1) for k in o) <= c]
            else:
                w = self.ev(fp)
                if w.shape != (3, 3):
                    return None
                offs = [o for o in np.ndindex(3, 3) if self.truth(w[o]) if w[o].op != "num" or w[o].args[0]]
            offs = [tuple(k - 1 for k in o) for o in offs]
        elif sz is not None:
            z = self.ev(sz)
            z = [int(k.args[0]) for k in z] if isinstance(z, tuple) else [self.integer(sz)] * v.ndim
            if any(k % 2 == 0 for k in z):
                return None
            offs = [tuple(k - n // 2 for k, n in zip(o, z)) for o in np.ndindex(*z)]
        else:
            return None
        out = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(*v.shape):
            es = set()
            for o in offs:
                jx = []
                for i, d, n in zip(ix, o, v.shape):
                    j = i + d
                    while not 0 <= j < n:
                        j = -1 - j if j < 0 else 2 * n - 1 - j
                    jx.append(j)
                es.add(v[tuple(jx)])
            out[ix] = over(top, es)
        return out

    def app(self, x, f, args):
        if not isinstance(f, str):
            return None
        pos, kw = self.kwargs(args)
        if f in ("cast", "copy", "np.array", "np.asarray", "np.ascontiguousarray", "list", "tuple"):
            return self.ev(pos[0])
        if f == "div0":
            raise OutOfTable("division by zero")
        if f in ("pi", "imagunit"):
            return x
        if f in ("floordiv", "mod") and len(pos) == 2 and not kw:
            u, v = self.ev(pos[0]), self.ev(pos[1])
            if all(isinstance(y, t.Term) and y.op == "num" for y in (u, v)) and v is not ZERO:
                return app(f, u, v)
        if f == "store" and len(pos) == 3:
            v = self.ev(pos[0]).copy()
            i = pos[1]
            ix = tuple(self.index(y) for y in i.args) if i.op == "tuple" else self.index(i)
            w = self.ev(pos[2])
            try:
                if isinstance(w, np.ndarray) and w.ndim:
                    v[ix] = w
                else:
                    tgt = v[ix]
                    if isinstance(tgt, np.ndarray):
                        fill = np.empty(tgt.shape, dtype=object)
                        fill[...] = scalararr(w if not isinstance(w, np.ndarray) else w.item())
                        v[ix] = fill
                    else:
                        v[ix] = w
            except (ValueError, IndexError) as e:
                raise OutOfTable("assignment that does not fit (%s)" % e)
            return v
        if f in ("zeros", "np.zeros", "np.ones", "np.empty", "ones", "empty", "np.full", "full", "filled"):
            sh = self.ev(pos[0])
            sh = [int(k.args[0]) for k in sh] if isinstance(sh, tuple) else [self.integer(pos[0])]
            w = {"z": ZERO, "o": ONE, "e": sym("uninitialised")}.get(f.replace("np.", "")[0]) or self.scalar(pos[1])
            out = np.empty(sh, dtype=object)
            out[...] = scalararr(w)
            return out
        if f in ("np.fliplr", "np.flipud", "np.flip") and not (set(kw) - {"axis"}):
            v = self.ev(pos[0])
            if f == "np.flip":
                ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
                if ax is None or ax is NONE:
                    return v[tuple(slice(None, None, -1) for _ in v.shape)]
                return np.flip(v, self.integer(ax))
            return v[:, ::-1] if f == "np.fliplr" else v[::-1]
        if f.endswith(("maximum_filter", "minimum_filter")):
            return self.extreme(f.endswith("maximum_filter"), pos, kw)
        if f in ("np.min", "np.max", "min", "max", "np.amin", "np.amax") and len(pos) == 1 and not kw:
            v = self.ev(pos[0])
            if not isinstance(v, np.ndarray) or not v.size:
                return None
            return over("max" in f, set(v.reshape(-1)))
        if f in ("np.minimum", "np.maximum", "min", "max") and len(pos) == 2 and not kw:
            g = lambda a, b: over("max" in f, {a, b})
            u, v = self.ev(pos[0]), self.ev(pos[1])
            return bc(g, u, v) if isinstance(u, np.ndarray) or isinstance(v, np.ndarray) else g(u, v)
        if f in ("abs", "np.abs", "np.absolute", "np.fabs") and len(pos) == 1 and not kw:
            v = self.ev(pos[0])
            g = lambda y: num(abs(y.args[0])) if y.op == "num" else app("np.abs", y)
            return np.vectorize(g, otypes=[object])(v) if isinstance(v, np.ndarray) else g(v)
        if f == "np.isclose" and len(pos) == 4 and not kw and all(y.op == "num" for y in pos[2:]):
            g = lambda a, b: t.le(t.add(app("np.abs", t.sub(a, b)), t.neg(t.mul(pos[2], app("np.abs", b)))), pos[3])
            return bc(g, self.ev(pos[0]), self.ev(pos[1]))
        if f == "np.rot90" and set(kw) <= {"k"}:
            return np.rot90(self.ev(pos[0]), self.integer(kw.get("k", pos[1] if len(pos) > 1 else ONE)))
        if f in ("np.roll",) and set(kw) <= {"axis", "shift"} and ("axis" in kw or len(pos) == 3):
            return np.roll(self.ev(pos[0]), self.integer(kw.get("shift", pos[1] if len(pos) > 1 else None)), self.integer(kw.get("axis", pos[2] if len(pos) == 3 else None)))
        if f in ("xor", "np.logical_xor") and len(pos) == 2:
            g = lambda a, b: t.or_(t.and_(a, t.not_(b)), t.and_(t.not_(a), b))
            return bc(g, self.ev(pos[0]), self.ev(pos[1]))
        if f.endswith(("binary_erosion", "binary_dilation")):
            return rowfun(f.rsplit(".", 1)[1], self.ev(pos[0]).reshape(-1), 0, *args[1:]).reshape(self.ev(pos[0]).shape)
        if f.endswith("reconstruction"):
            m = kw.get("method", pos[2] if len(pos) > 2 else None)
            m = "dilation" if m is None else m.args[0] if m.op in ("py", "str") else None
            if m not in ("dilation", "erosion") or set(kw) - {"method", "seed", "mask"}:
                return None
            a, b = (self.ev(kw.get(k, pos[i] if len(pos) > i else None)) for i, k in enumerate(("seed", "mask")))
            return reconstruction(a, b, m)
        if f == "len":
            v = self.ev(pos[0])
            return num(len(v))
        if f == "dim" and len(pos) == 2:
            v = self.ev(pos[0])
            return num(v.shape[self.integer(pos[1])])
        if f == "shape":
            return tuple(num(k) for k in self.ev(pos[0]).shape)
        if f in ("range", "np.arange", "arange") and 1 <= len(pos) <= 3 and set(kw) <= {"dtype"}:
            lo, hi, st = ([0] + [self.integer(pos[0])] if len(pos) == 1 else [self.integer(p) for p in pos[:2]]) + [self.integer(pos[2]) if len(pos) == 3 else 1]
            return np.array([num(k) for k in range(lo, hi, st)] + [None], dtype=object)[:-1]
        if f == "np.diff" and len(pos) in (1, 2) and set(kw) <= {"axis", "n"}:
            times = self.integer(pos[1]) if len(pos) == 2 else self.integer(kw["n"]) if "n" in kw else 1
            v = self.ev(pos[0])
            ax = self.axis(v, kw, pos, 3)
            m = np.moveaxis(v, ax, -1)
            for _ in range(times):
                m = bc(t.sub, m[..., 1:], m[..., :-1])
            return np.moveaxis(m, -1, ax)
        if f in self.ROWWISE and len(pos) == 1 and set(kw) <= {"axis"}:
            v = self.ev(pos[0])
            return rowfun(self.ROWWISE[f], v, self.axis(v, kw, pos, 9))
        if f in self.POINTWISE and len(pos) == 1 and not kw:
            v = self.ev(pos[0])
            g = lambda y: pointwise(self.POINTWISE[f], y)
            return np.vectorize(g, otypes=[object])(v) if isinstance(v, np.ndarray) else g(v)
        if f in ("filt6", "pade6") and len(pos) == 2:
            v = self.ev(pos[0])
            if v.ndim != 1:
                return None
            return rowfun(f, v, 0, self.scalar(pos[1]))
        if f in ("hcat", "vcat", "cat", "concat"):
            vs = [self.ev(p) for p in pos]
            if any(not isinstance(v, np.ndarray) for v in vs):
                return None
            ax = {"vcat": 0, "cat": 0, "concat": 0}.get(f, 1 if vs[0].ndim > 1 else 0)
            try:
                return np.concatenate(vs, axis=ax)
            except ValueError:
                raise OutOfTable("arrays that do not fit together: " + t.show(x, 2)[:100])
        if f == "reshape":
            v = self.ev(pos[0])
            try:
                return v.reshape([self.integer(p) for p in (pos[1].args if len(pos) == 2 and pos[1].op == "tuple" else pos[1:])])
            except ValueError:
                raise OutOfTable("reshape that does not fit")
        if f in ("transpose", "T"):
            return self.ev(pos[0]).T
        if f == "np.gradient" and len(pos) <= 2 and set(kw) <= {"axis"} and "axis" in kw or f == "np.gradient" and len(pos) <= 2 and not kw and self.ev(pos[0]).ndim == 1:
            v = self.ev(pos[0])
            h = self.scalar(pos[1]) if len(pos) == 2 else ONE
            ax = self.axis(v, kw, pos, 9)
            m = np.moveaxis(v, ax, -1)
            out = np.empty(m.shape, dtype=object)
            d = bc(t.sub, m[..., 1:], m[..., :-1])
            out[..., 0], out[..., -1] = bc(t.div, d[..., 0], h), bc(t.div, d[..., -1], h)
            out[..., 1:-1] = bc(t.div, bc(t.sub, m[..., 2:], m[..., :-2]), t.mul(num(2), h))
            return np.moveaxis(out, -1, ax)
        return None


class OutOfTable(Exception):
    pass


def bc(f, u, v):
    u = u if isinstance(u, np.ndarray) else scalararr(u)
    v = v if isinstance(v, np.ndarray) else scalararr(v)
    try:
        u, v = np.broadcast_arrays(u, v)
    except ValueError:
        raise OutOfTable("shapes that do not fit")
    out = np.empty(u.shape, dtype=object)
    for ix in np.ndindex(*u.shape):
        out[ix] = f(u[ix], v[ix])
    return out


def scalararr(u):
    a = np.empty((), dtype=object)
    a[()] = u
    return a
