from .common import *
from .small import Small, OutOfTable, table, thresholds
from .opq import opaque, merge
from fractions import Fraction
import numpy as np

EXPLANATION = ("The type and the entries of the default time axis are extracted as gated terms over the requested type and the length, and decided for every numeric type on every interval of lengths on which the conditions are constant. "
               "The normalised axis and the axis every round of the decomposition is given are read entry by entry for symbolic times.")
R_EXACT = "the default time axis is 0, 1, ..., n-1 in a type that holds each of these numbers, of the same kind as the requested one and not smaller"
R_REFUSE = "a request is refused only when no type of that kind can hold the numbers"
R_COMMON = "types are unified to the common type, and only types change"
R_NORM = "the normalised time axis is (t - t[0]) / (smallest increment)"
R_USE = "every extremum search and every envelope uses the normalised caller's times (sample numbers when none are given or extrema are detected on samples)"
U = "PyEMD.utils."
E = "PyEMD.EMD.EMD."
INT = {"%s%d" % (k, b): (b, k == "int") for k in ("int", "uint") for b in (8, 16, 32, 64)}
FLT = {"float16": (16, 10, 65504), "float32": (32, 23, 2 ** 128 - 2 ** 104), "float64": (64, 52, (2 ** 53 - 1) * 2 ** 971)}


def imax(d):
    b, s = INT[d]
    return 2 ** (b - 1) - 1 if s else 2 ** b - 1


def tofloat(n, d):
    """n rounded to the float type"""
    m = FLT[d][1] + 1
    if n.bit_length() > m:
        sh = n.bit_length() - m
        q, r = divmod(n, 1 << sh)
        half = 1 << (sh - 1)
        if r > half or r == half and q & 1:
            q += 1
        n = q << sh
    return n if n <= FLT[d][2] else float("inf")


def cast(n, d):
    if d in FLT:
        return tofloat(n, d)
    b, s = INT[d]
    n &= (1 << b) - 1
    return n - (1 << b) if s and n >> (b - 1) else n


def dname(x):
    if x.op in ("py", "str") and isinstance(x.args[0], str):
        return x.args[0].replace("numpy.", "").replace("val:", "")
    return None


class World:
    def __init__(self, dt, n, types=None, version="2"):
        self.dt, self.n, self.types, self.version = dt, n, types or {}, version

    def ev(self, x):
        op, a = x.op, x.args
        if x is sym("n"):
            return self.n
        if x is sym("dt"):
            return self.dt
        if op in ("num", "bool"):
            return a[0]
        if op in ("py", "str"):
            d = dname(x)
            if d in INT or d in FLT or d in ("integer", "floating", "signedinteger", "unsignedinteger", "number", "inexact"):
                return d
            if d in ("int", "int_", "intp"):
                return "int64"
            if d in ("float", "double"):
                return "float64"
            raise Unknown("type " + str(d))
        if op == "poly":
            s = 0
            for m, c in a[0]:
                p = c
                for z, e in m:
                    p = p * self.ev(z) ** e
                s = s + p
            return s
        if op == "eq0":
            p = t.as_poly(a[0])
            p = list(p.items() if isinstance(p, dict) else p)
            if len(p) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, c in p) and p[0][1] == -p[1][1]:
                return self.ev(p[0][0][0][0]) == self.ev(p[1][0][0][0])
        if op in ("lt0", "le0", "eq0"):
            v = self.ev(a[0])
            return v < 0 if op == "lt0" else v <= 0 if op == "le0" else v == 0
        if op == "not":
            return not self.ev(a[0])
        if op in ("and", "or"):
            unk = None
            for y in a:
                try:
                    if bool(self.ev(y)) == (op == "or"):
                        return op == "or"
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
            return op == "and"
        if op == "ite":
            return self.ev(a[1] if self.ev(a[0]) else a[2])
        if op == "eq" and a[1].op in ("py", "str") and "version" in t.show(a[0], 4):
            return str(a[1].args[0]) == self.version
        if op in ("eq", "is") and len(a) == 2:
            if a[1] is NONE or a[0] is NONE:
                return False
            return self.ev(a[0]) == self.ev(a[1])
        if op == "idx" and a[0].op == "app" and a[0].args[0] == "arange":
            lo, hi = (self.ev(y) for y in a[0].args[1:3])
            k = self.ev(a[1])
            v = int(hi + k if k < 0 else lo + k)
            return cast(v, self.dt)
        if op == "app":
            f = a[0]
            if f == "np.issubdtype":
                d, k = self.ev(a[1]), self.ev(a[2])
                kinds = {"integer": d in INT, "floating": d in FLT, "inexact": d in FLT, "number": True, "signedinteger": d in INT and INT[d][1], "unsignedinteger": d in INT and not INT[d][1]}
                if k in kinds:
                    return kinds[k]
                return d == k
            if str(f).startswith("attr.") and a[1].op == "app":
                g, d = a[1].args[0], self.ev(a[1].args[1])
                k = f[5:]
                if str(g).endswith("iinfo") and d in INT:
                    b, s = INT[d]
                    t_ = {"max": imax(d), "min": -2 ** (b - 1) if s else 0, "bits": b}
                elif str(g).endswith("finfo") and d in FLT:
                    t_ = {"nmant": FLT[d][1], "max": FLT[d][2], "bits": FLT[d][0]}
                else:
                    raise Unknown(t.show(x, 3)[:80])
                if k in t_:
                    return t_[k]
            if f == "dtype" and a[1] in self.types:
                return self.types[a[1]]
            if str(f).endswith(("promote_types", "result_type")) and len(a) == 3:
                return str(np.promote_types(self.ev(a[1]), self.ev(a[2])))
            if str(f).endswith("find_common_type") and a[1].op == "stack" and a[2].op == "stack" and not a[2].args:
                ds = [self.ev(y[1] if isinstance(y, tuple) else y) for y in a[1].args]
                out = ds[0]
                for d in ds[1:]:
                    out = str(np.promote_types(out, d))
                return out
            if f == "pow":
                return self.ev(a[1]) ** self.ev(a[2])
            if f in ("cast", "int", "float") and len(a) >= 2 and isinstance(a[1], t.Term):
                return self.ev(a[1])
        raise Unknown(t.show(x, 2)[:100])


def leaves(I, st, v, cond=()):
    if isinstance(v, VIte):
        yield from leaves(I, st, v.a, cond + (v.c,))
        yield from leaves(I, st, v.b, cond + (t.not_(v.c),))
    else:
        yield cond, v


def fits(n, d):
    return n - 1 <= imax(d) if d in INT else n - 1 <= 2 ** (FLT[d][1] + 1)


def lengths():
    out = {1, 2, 3, 100}
    for b in (7, 8, 11, 15, 16, 24, 31, 32, 53):
        out |= {2 ** b + k for k in (-3, -2, -1, 0, 1, 2, 3)}
    return sorted(out)


def check(prog, rep, tier):
    timeline(prog, rep)
    common(prog, rep)
    normal(prog, rep)
    use(prog, rep)
    trials(prog, rep)


EXACT = ("numpy.int64", "numpy.float64", "builtin.int", "builtin.float", "numpy.intp", "numpy.uint64", "numpy.int32", "numpy.uint32")


def trials(prog, rep):
    """The axis each inner decomposition is given when the caller gave none."""
    f = get_func(prog, U + "get_timeline")

    def h(I, st, args, kw, node):
        env = runs.bindargs(I, st, f, args, kw, node)
        x = app("get_timeline", I.read(st, env["range_max"]))
        arr.RANK[x] = 1
        return I.newarr(st, x, 1, node=node)
    S = sym("S")
    ns = (app("len", S), arr.nrows(S), app("size", S), arr.idx(app("shape", S), ZERO))
    for name, f_, par in [(a, b, c) for a, b in (("EEMD", runs.eemd), ("CEEMDAN", runs.ceemdan)) for c in (False, True)]:
        r = f_(prog, parallel=par, T="none", opaque={U + "get_timeline": h})
        rep.covered(r)
        made = [e for e in r.I.events if e.kind == "call" and e.name == "numpy.arange"]
        seen = set()
        for e in r.I.events:
            if e.kind != "call" or e.name != runs.EMD_QUAL + ".emd" or e.data[2] in seen:
                continue
            x = e.data[2]
            seen.add(x)
            v, why = "undecided", "times %s" % t.show(x, 4)[:160]
            if x is NONE:
                v, why = "ok", "left to the inner decomposition"
            elif x.op == "app" and x.args[0] == "get_timeline":
                n = x.args[1]
                v = "ok" if any(n is y for y in ns) else "undecided" if unknown_atoms(n) or noisy(n) else "bad"
                why = "sample numbers of %s samples" % t.show(n, 4)[:100]
            elif x.op == "app" and x.args[0] == "arange" and len(x.args) == 3:
                own = [y for y in made if y.data[0] is x.args[1] and y.data[1] is x.args[2] and not (y.data[2].op == "py" and y.data[2].args[0] in EXACT)]
                if x.args[1] is not ZERO or not any(x.args[2] is y for y in ns):
                    v = "undecided" if unknown_atoms(x) or noisy(x) else "bad"
                elif own:
                    v, why = "bad", "sample numbers are made in type %s (%s), which does not hold every one of them for long signals" % (t.show(own[0].data[2], 3)[:60], own[0].where())
                else:
                    v = "ok"
            elif x is sym("T"):
                v = "ok"
            rep.verdict(v, "%s parallel=%s: times of the inner decomposition %d" % (name, par, len(seen)), R_EXACT, e.where(), why)
        if not seen:
            rep.undecided("%s parallel=%s: times of the inner decompositions" % (name, par), R_EXACT, where(r), "no inner decomposition found")


def noisy(x):
    return any(y.op == "app" and str(y.args[0]).startswith("EMD.") for y in t.walk(x))


def timeline(prog, rep):
    r = enter(prog, U + "get_timeline", args=[scin("n"), scin("dt")])
    rep.covered(r)
    w = where(r)
    raises = [e for e in r.I.events if e.kind == "raise"]
    ls = []
    for cond, v in leaves(r.I, r.st, r.value):
        c = r.st.heap.get(getattr(v, "cid", None))
        ls.append((cond, r.I.read(r.st, v), getattr(c, "dtype", None)))
    for d in list(INT) + list(FLT):
        bad = und = None
        n_ok = 0
        for n in lengths():
            wd = World(d, n)
            try:
                if any(all(wd.ev(g) for g, _ in e.guard) for e in raises):
                    D = None
                else:
                    hit = [(x, dt) for cond, x, dt in ls if all(wd.ev(c) for c in cond)]
                    if len(hit) != 1:
                        raise Unknown("which result")
                    x, dt = hit[0]
                    if x is not app("arange", ZERO, sym("n")):
                        if x.op == "app" and x.args[0] == "arange" and not unknown_atoms(x):
                            bad = bad or "for %s and %d samples the axis is %s" % (d, n, t.show(x, 4)[:80])
                            continue
                        raise Unknown("entries " + t.show(x, 3)[:80])
                    D = wd.ev(dt) if isinstance(dt, t.Term) else None
                    if D is None:
                        raise Unknown("type of the axis")
            except (Unknown, TypeError, OverflowError) as e:
                und = und or "%s (%s, %d samples)" % (e, d, n)
                continue
            kind = INT if d in INT else FLT
            if D is None:
                if any(fits(n + 1, k) and fits(n, k) for k in kind):
                    bad = bad or "%d samples of %s are refused" % (n, d)
            elif D not in kind:
                bad = bad or "for %s and %d samples the type is %s, of another kind" % (d, n, D)
            elif not fits(n, D):
                bad = bad or "for %s and %d samples the type is %s, which cannot hold every number up to %d" % (d, n, D, n - 1)
            elif kind[D][0] < kind[d][0]:
                bad = bad or "for %s and %d samples the type is %s, smaller than requested" % (d, n, D)
            else:
                n_ok += 1
        rep.verdict("bad" if bad else "undecided" if und else "ok", "get_timeline for %s" % d, R_EXACT, w, bad or und or "%d lengths" % n_ok)


def common(prog, rep):
    r = enter(prog, U + "deduce_common_type", args=[scin("x"), scin("y")])
    rep.covered(r)
    x, w = r.returned, where(r)
    ok = True
    todo, und = [(x, ())], None
    bad = None
    while todo:
        y, cs = todo.pop()
        if y.op == "ite":
            todo += [(y.args[1], cs + (y.args[0],)), (y.args[2], cs + (t.not_(y.args[0]),))]
            continue
        if y in (sym("x"), sym("y")):
            same = t.eq0(t.sub(sym("x"), sym("y")))
            if same not in cs and mk("eq", sym("x"), sym("y")) not in cs:
                bad = "one of the two types is used although they differ"
            continue
        if y.op == "app" and any(str(y.args[0]).endswith(k) for k in ("promote_types", "find_common_type", "result_type")):
            if {z for z in t.walk(y) if z.op == "sym"} != {sym("x"), sym("y")}:
                bad = "the common type is taken of %s" % t.show(y, 3)[:100]
            continue
        und = t.show(y, 3)[:100]
    rep.verdict("bad" if bad else "undecided" if und else "ok", "deduce_common_type", R_COMMON, w, bad or und or "")
    r = enter(prog, U + "unify_types", args=[arrin("x"), arrin("y")])
    rep.covered(r)
    v = r.value
    bad = und = None
    if not isinstance(v, Tup) or len(v.items) != 2:
        und = "the result is not a pair"
    else:
        for it, s in zip(v.items, ("x", "y")):
            for cond, leaf in leaves(r.I, r.st, it):
                z = r.I.read(r.st, leaf)
                while z.op == "app" and z.args[0] in ("cast", "copy"):
                    z = z.args[1]
                if z is not sym(s):
                    if z in (sym("x"), sym("y")):
                        bad = "the arrays are exchanged"
                    else:
                        und = und or t.show(z, 3)[:100]
    rep.verdict("bad" if bad else "undecided" if und else "ok", "unify_types", R_COMMON, where(r), bad or und or "")
    if und and not isinstance(v, Tup):
        return
    bad = und = None
    k = 0
    for dx in list(INT) + list(FLT):
        for dy in list(INT) + list(FLT):
            for ver in "12":
                wd = World(None, None, {sym("x"): dx, sym("y"): dy}, ver)
                want = str(np.promote_types(dx, dy))
                for it, s in zip(v.items, "xy"):
                    try:
                        hit = [l for cond, l in leaves(r.I, r.st, it) if all(wd.ev(c) for c in cond)]
                        if len(hit) != 1:
                            raise Unknown("which result")
                        d = r.st.heap[hit[0].cid].dtype
                        got = wd.ev(d)
                        k += 1
                        if got != want:
                            bad = bad or "unifying %s with %s leaves %s of type %s, not %s" % (dx, dy, s, got, want)
                    except (Unknown, TypeError, AttributeError, KeyError) as e:
                        und = und or "%s (%s, %s)" % (e, dx, dy)
    rep.verdict("bad" if bad else "undecided" if und else "ok", "unify_types, resulting types", R_COMMON, where(r), bad or und or "%d combinations" % k)


def axis(tab):
    d = [t.sub(b, a) for a, b in zip(tab, tab[1:])]
    from .small import over
    lo = over(False, set(d))
    return np.array([t.div(t.sub(x, tab[0]), lo) for x in tab] + [None], dtype=object)[:-1]


def eq(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and all(u is v or t.is_zero(t.sub(u, v)) for u, v in zip(a, b))


def normal(prog, rep):
    r = enter(prog, E + "_normalize_time", args=[arrin("tt")])
    rep.covered(r)
    for n in sorted({2, 3, 5} | {k for k in thresholds(r.returned, top=200) if k > 1}):
        tab = table("t", n)
        try:
            v = Small({sym("tt"): tab}).ev(r.returned)
            rep.verdict("ok" if eq(v, axis(tab)) else "bad", "_normalize_time of %d times" % n, R_NORM, where(r), "entries %s" % "; ".join(t.show(y, 4)[:60] for y in v[:3]))
        except OutOfTable as e:
            rep.bad("_normalize_time of %d times" % n, R_NORM, where(r), e)
        except (Unknown, TypeError, AttributeError, ValueError) as e:
            bad = instance(r.returned, sym("tt"), n)
            rep.verdict("bad" if bad else "undecided", "_normalize_time of %d times" % n, R_NORM, where(r), bad or e)


def instance(x, s, n):
    """increasing times for which the term x is not the normalised axis, or None"""
    for inc in ((1,), (2, 1, 3), (5, Fraction(1, 10 ** 7), 3), (Fraction(1, 10 ** 13), 1), (10 ** 9, 10 ** 12, 10 ** 9 + 1), (Fraction(1, 10 ** 20), Fraction(3, 10 ** 20)), (4, 4, Fraction(1, 2), 4, 4), (Fraction(1, 10 ** 10), Fraction(2, 10 ** 10)), (1, 1 + Fraction(1, 10 ** 9))):
        for start in (0, Fraction(-7, 2), 10 ** 6):
            ts = [Fraction(start)]
            for k in range(n - 1):
                ts.append(ts[-1] + inc[k % len(inc)])
            tab = np.array([num(t.q(v)) for v in ts] + [None], dtype=object)[:-1]
            try:
                from .refute import Numeric
                v = Numeric({s: tab, sym("S"): table("S", n)}).ev(x)
                if isinstance(v, np.ndarray) and all(y.op == "num" for y in v) and not eq(v, axis(tab)):
                    return "for the times %s the axis is %s" % ([float(y) for y in ts[:4]], [float(y.args[0]) for y in v[:4]])
            except (Unknown, OutOfTable, TypeError, AttributeError, ValueError, IndexError, ZeroDivisionError, KeyError):
                continue
    return None


def use(prog, rep):
    o = merge(opaque(prog, E + "find_extrema", "fe", 5), opaque(prog, E + "extract_max_min_spline", "env", 4))
    for T in ("none", "arr"):
        for det in ("simple", "parabol"):
            r = runs.emd(prog, T=T, opaque=o, selfattrs={"extrema_detection": V(py(det))})
            rep.covered(r)
            args = {}
            roots = [r.returned] + [p[k] for p in r.I.phis.values() for k in ("init", "back")]
            seen = set()
            for x in roots:
                if isinstance(x, t.Term):
                    for y in t.walk(x, seen):
                        if y.op == "app" and str(y.args[0]).startswith(("fe.", "env.")):
                            args.setdefault(y.args[1], str(y.args[0]).split(".")[0])
            name = "EMD.emd, %s, %s" % ("times given" if T == "arr" else "no times", det)
            if not args:
                rep.undecided(name, R_USE, where(r), "no extremum search found")
                continue
            bad = und = None
            for n, x, f in [(n, x, f) for x, f in args.items() for n in sorted({5} | {k for k in thresholds(x, top=80) if k > 2})]:
                tab = table("t", n)
                num_ = np.array([num(k) for k in range(n)] + [None], dtype=object)[:-1]
                want = axis(tab if T == "arr" and det == "parabol" else num_)
                try:
                    v = Small({sym("T"): tab, sym("S"): table("S", n)}).ev(x)
                    if not eq(v, want):
                        bad = "%s is given the times %s" % ({"fe": "find_extrema", "env": "extract_max_min_spline"}[f], t.show(x, 5)[:200])
                except OutOfTable as e:
                    bad = str(e)
                except (Unknown, TypeError, AttributeError, ValueError) as e:
                    und = str(e)
                    bad = bad or T == "arr" and det == "parabol" and instance(x, sym("T"), n) or None
            rep.verdict("bad" if bad else "undecided" if und else "ok", name, R_USE, where(r), bad or und or "%d distinct time arguments" % len(args))
