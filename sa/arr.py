"""Array algebra over terms: rank, row counts, indexing, row sums."""
from fractions import Fraction
from . import terms as t
from .terms import Term, mk, app, num, ZERO, ONE, NONE, add, sub, mul, neg, ite, as_poly, from_poly

RANK = {}      # term -> rank (0 scalar, 1 vector, ...)
NROWS = {}     # term -> term (known number of rows / length)
SHAPES = {}    # term of an allocation -> the shapes it was made with

SCALAR_FUN = {
    "np.max", "np.min", "np.std", "np.mean", "np.sum", "np.any", "np.all", "np.allclose", "np.median", "np.ptp",
    "len", "int", "float", "abs0", "max", "min", "dtype", "shape", "np.count_nonzero", "nan", "inf", "opt", "pi",
    "isinstance", "np.argmax", "np.argmin", "np.isscalar", "np.array_equal", "builtin.sum", "math",
}
ELEMWISE = {
    "np.abs", "np.sqrt", "np.exp", "np.log", "np.sign", "np.round", "np.floor", "np.ceil", "np.isnan", "np.isfinite",
    "np.maximum", "np.minimum", "cast", "np.where3", "pow", "np.sin", "np.cos", "np.angle", "real", "imag",
    "np.isinf", "np.conj", "np.nan_to_num", "mod", "floordiv", "xor",
}
SAME_RANK = {"scipy.ndimage.filters.maximum_filter", "scipy.ndimage.filters.minimum_filter", "scipy.ndimage.maximum_filter", "scipy.ndimage.minimum_filter",
             "scipy.ndimage.morphology.binary_erosion", "scipy.ndimage.binary_erosion", "scipy.ndimage.morphology.binary_dilation", "scipy.ndimage.binary_dilation", "np.sort", "np.unwrap", "hilbert", "flip0", "np.flip", "np.fliplr", "np.flipud", "np.gradient", "np.cumsum"}


def rank(x):
    r = RANK.get(x, -1)
    if r != -1:
        return r
    r = _rank(x)
    RANK[x] = r
    return r


def _carry(a, b):
    r = RANK.get(a)
    if r is not None and RANK.get(b) is None and a.args[0] == b.args[0]:
        RANK[b] = r


t.CARRY = _carry
t.RANKOF = rank


def _rank(x):
    op = x.op
    if op in ("num", "bool", "py", "iota", "bv"):
        return 0
    if op in ("and", "or", "not", "lt0", "le0", "eq0", "eq", "is", "poly"):
        return _maxrank(t.subterms(x))
    if op == "ite":
        a, b = rank(x.args[1]), rank(x.args[2])
        if a == b:
            return a
        if a is None or b is None:
            return a if b is None else b
        return max(a, b)
    if op == "app":
        f = x.args[0]
        if f in SCALAR_FUN:
            return 0
        if f in ELEMWISE:
            return _maxrank([y for y in x.args[1:] if isinstance(y, Term)])
        if f in SAME_RANK:
            return rank(x.args[1])
        if f in ("nonzero1", "arange", "concat1"):
            return 1
        return None
    if op == "stack":
        rs = []
        for k, y in x.args:
            r = rank(y)
            if r is not None:
                rs.append(r + (1 if k == "row" else 0))
        return max(rs) if rs else 2
    if op == "sumrows":
        r = rank(x.args[0])
        return None if r is None else max(0, r - 1)
    if op == "idx":
        b, i = x.args
        rb = rank(b)
        if i.op == "slice":
            return rb
        if i.op == "tuple":
            if rb is None:
                return None
            n = 0
            extra = 0
            for y in i.args:
                if y is NONE:
                    extra += 1
                elif y.op == "slice":
                    n += 0
                elif y.op == "py":
                    return None
                else:
                    ry = rank(y)
                    if ry is None:
                        return None
                    if ry == 0 and not _boolish(y):
                        n += 1
            return rb - n + extra
        if i is NONE:
            return None if rb is None else rb + 1
        ri = rank(i)
        if ri is None:
            return None
        if ri == 0 and not _boolish(i):
            return None if rb is None else max(0, rb - 1)
        if _boolish(i):
            return None if rb is None else max(1, rb - ri + 1)
        return None if rb is None else rb - 1 + ri
    if op == "store":
        return rank(x.args[0])
    if op == "comp":
        r = rank(x.args[1])
        return None if r is None else r + 1
    if op == "sumover":
        return rank(x.args[1])
    return None


def _boolish(x):
    return x.op in ("lt0", "le0", "eq0", "and", "or", "not", "eq")


def _maxrank(ts):
    m = 0
    for y in ts:
        r = rank(y)
        if r is None:
            return None
        m = max(m, r)
    return m


# ------------------------------------------------------------------- lengths
def nrows(x):
    r = NROWS.get(x)
    if r is not None:
        return r
    op = x.op
    if op == "stack":
        n = ZERO
        for k, y in x.args:
            n = add(n, ONE if k == "row" else nrows(y))
        return n
    if op == "ite":
        return ite(x.args[0], nrows(x.args[1]), nrows(x.args[2]))
    if op == "comp":
        return x.args[0]
    if op in ("poly", "lt0", "le0", "eq0", "and", "or", "not") or (op == "app" and x.args[0] in ELEMWISE):
        c = _len_atom(x)
        if c is not None and c is not x:
            return nrows(c)
    if op == "app" and x.args[0] in ("np.sort", "np.unwrap", "flip0", "np.flip", "np.cumsum"):
        return nrows(x.args[1])
    if op == "app" and x.args[0] == "arange" and len(x.args) == 3:
        return sub(x.args[2], x.args[1])
    if op == "app" and x.args[0] == "concat1":
        n = ZERO
        for y in x.args[1:]:
            n = add(n, ONE if rank(y) == 0 else nrows(y))
        return n
    if op == "store":
        return nrows(x.args[0])
    if op == "idx":
        b, i = x.args
        if i.op == "slice":
            lo, hi, st = i.args
            n = nrows(b)
            if st is NONE or (t.isnum(st) and abs(st.args[0]) == 1):
                if t.isnum(st) and st.args[0] == -1 and (lo is not NONE or hi is not NONE):
                    return app("len", x)
                l = lo if lo is not NONE else ZERO
                h = hi if hi is not NONE else n
                okl = t.isnum(l)
                if okl and l.args[0] < 0:
                    l = add(n, l)
                if h is n:
                    if okl:
                        return sub(n, l)
                elif t.isnum(h) and h.args[0] < 0 and okl:
                    return sub(add(n, h), l)
        elif i.op == "tuple" and i.args and i.args[0].op == "slice":
            return nrows(idx(b, i.args[0]))
        elif i.op == "tuple" and i.args and i.args[0] is NONE:
            return ONE
        elif i is NONE:
            return ONE
        elif rank(i) == 1 and not _boolish(i):
            return nrows(i)
    if op == "num":
        return app("len", x)
    return app("len", x)


def _len_atom(x):
    """Canonical vector atom of an element-wise term (for its length)."""
    best = None
    mr = rank(x)
    for y in t.subterms(x):
        r = rank(y)
        if r == 0:
            continue
        if r is None or (mr is not None and r < mr):
            continue
        z = y
        while z.op in ("poly",) or (z.op == "app" and z.args[0] in ELEMWISE):
            z2 = _len_atom(z)
            if z2 is None or z2 is z:
                break
            z = z2
        key = (0 if z.op == "sym" else 1, z.id)
        if best is None or key < best[0]:
            best = (key, z)
    if best is None:
        for y in t.subterms(x):
            if rank(y) is None:
                return y
        return None
    return best[1]


# ------------------------------------------------------------------ indexing
FULL = mk("slice", NONE, NONE, NONE)


def slc(lo=NONE, hi=NONE, st=NONE):
    if lo is ZERO:
        lo = NONE
    if st is ONE:
        st = NONE
    return mk("slice", lo, hi, st)


def _compose(s1, s2):
    lo1, hi1, st1 = s1.args
    lo2, hi2, st2 = s2.args
    if st1 is not NONE or st2 is not NONE:
        return None

    def okl(l):
        return l is NONE or (t.isnum(l) and l.args[0] >= 0)

    def okh(h):
        return h is NONE or (t.isnum(h) and h.args[0] < 0)

    if not (okl(lo1) and okl(lo2) and okh(hi1) and okh(hi2)):
        return None
    lo = (0 if lo1 is NONE else lo1.args[0]) + (0 if lo2 is NONE else lo2.args[0])
    hi = (0 if hi1 is NONE else hi1.args[0]) + (0 if hi2 is NONE else hi2.args[0])
    return slc(num(lo) if lo else NONE, num(hi) if hi else NONE)


def _last(b, i):
    """i is the position of b's last row"""
    if i.op != "poly" or len(i.args[0]) < 2:
        return False
    n = nrows(b)
    return n is not None and not t.isnum(n) and t.add(i, ONE) is n


def idx(b, i):
    if _last(b, i):
        i = num(-1)
    if i.op == "slice" and _last(b, i.args[1]) and i.args[2] is NONE:
        i = slc(i.args[0], num(-1))
    if i.op == "slice":
        if i.args[0] is ZERO or i.args[2] is ONE:
            i = slc(*i.args)
        if i is FULL:
            return b
        lo, hi, st = i.args
        if lo is NONE and st is NONE and hi is not NONE:
            n = nrows(b)
            if n is hi:
                return b
            if t.isnum(n) and t.isnum(hi) and 0 <= n.args[0] <= hi.args[0]:
                return b
    if i.op == "tuple":
        if len(i.args) == 1:
            return idx(b, i.args[0])
        if all(y is FULL or y.op == "py" and y.args[0] == "..." for y in i.args[1:]):
            if i.args[0] is not NONE and not (i.args[0].op == "py"):
                return idx(b, i.args[0])
        if all(y is FULL for y in i.args):
            return b
        if i.args[0] is NONE and all(y is FULL or (y.op == "py" and y.args[0] == "...") for y in i.args[1:]):
            return stack_row(b)
        if len(i.args) == 2 and rank(i.args[0]) == 0 and i.args[0].op != "py":
            # a[i, j] == a[i][j]
            return idx(idx(b, i.args[0]), i.args[1])
        if len(i.args) == 2 and i.args[0].op == "slice" and i.args[1].op == "slice":
            pass
    if i is NONE:
        return stack_row(b)
    if b.op in ("num", "bool"):
        return b
    if b.op == "ite":
        if b.size < 4000:
            return ite(b.args[0], idx(b.args[1], i), idx(b.args[2], i))
    if i.op == "ite" and rank(i) == 0:
        return ite(i.args[0], idx(b, i.args[1]), idx(b, i.args[2]))
    if b.op == "stack":
        ps = b.args
        if i.op == "num":
            k = int(i.args[0])
            if k < 0:
                for j in range(1, -k + 1):
                    if j > len(ps):
                        break
                    kind, y = ps[-j]
                    if kind != "row":
                        if j == 1 and len(ps) >= 1 and k == -1:
                            break
                        break
                    if j == -k:
                        return y
                if k == -1 and ps and ps[-1][0] == "mat" and ps[-1][1].op == "poly":
                    pass
            else:
                for j in range(0, k + 1):
                    if j >= len(ps):
                        break
                    kind, y = ps[j]
                    if kind != "row":
                        break
                    if j == k:
                        return y
        if i.op == "slice":
            lo, hi, st = i.args
            if st is NONE and lo is NONE and t.isnum(hi) and hi.args[0] < 0:
                k = -int(hi.args[0])
                if len(ps) >= k and all(p[0] == "row" for p in ps[-k:]):
                    rest = ps[:-k]
                    if len(rest) == 1 and rest[0][0] == "mat":
                        return rest[0][1]
                    return t.stack(*rest)
            if st is NONE and hi is NONE and t.isnum(lo) and lo.args[0] < 0:
                k = -int(lo.args[0])
                if len(ps) >= k and all(p[0] == "row" for p in ps[-k:]):
                    return t.stack(*ps[-k:])
            if st is NONE and lo is NONE and hi is not NONE:
                # prefix of whole parts
                n = ZERO
                for j, (kind, y) in enumerate(ps):
                    n = add(n, ONE if kind == "row" else nrows(y))
                    if n is hi:
                        rest = ps[: j + 1]
                        if len(rest) == 1 and rest[0][0] == "mat":
                            return rest[0][1]
                        return t.stack(*rest)
    if b.op == "store":
        if b.args[1] is i:
            return b.args[2]
        j = b.args[1]
        if t.isnum(i) and t.isnum(j) and (i.args[0] < 0) == (j.args[0] < 0):
            return idx(b.args[0], i)
    if b.op == "comp":
        if rank(i) == 0 and i.op != "num":
            return subst_bv(b.args[1], b, i)
        if i.op == "num" and i.args[0] >= 0:
            return subst_bv(b.args[1], b, i)
    if b.op == "idx" and b.args[1].op == "slice":
        if i.op == "slice":
            c = _compose(b.args[1], i)
            if c is not None:
                return idx(b.args[0], c)
        if t.isnum(i):
            lo, hi, st = b.args[1].args
            k = i.args[0]
            if st is NONE:
                if k >= 0 and (lo is NONE or (t.isnum(lo) and lo.args[0] >= 0)):
                    return idx(b.args[0], num(k + (0 if lo is NONE else lo.args[0])))
                if k < 0 and (hi is NONE or (t.isnum(hi) and hi.args[0] < 0)):
                    return idx(b.args[0], num(k + (0 if hi is NONE else hi.args[0])))
            elif t.isnum(st) and st.args[0] == -1 and lo is NONE and hi is NONE:
                return idx(b.args[0], num(-1 - k))
    if i.op == "slice" and b.op == "idx" and b.args[1] is i and i.args == (NONE, NONE, num(-1)):
        return b.args[0]
    # element-wise push-through
    if b.op in ("poly", "lt0", "le0", "eq0", "and", "or", "not") or (b.op == "app" and b.args[0] in ELEMWISE):
        mr = rank(b)
        if mr is not None and mr >= 1 and (mr == 1 or _rowindex(i)) and b.size < 3000:
            def f(y):
                r = rank(y)
                if r == mr:
                    return idx(y, i)
                return y
            ok = all(rank(y) is not None for y in t.subterms(b))
            if ok:
                return t.rebuild(b, f)
    if b.op == "tuple" and i.op == "num":
        k = int(i.args[0])
        if -len(b.args) <= k < len(b.args):
            return b.args[k]
    return mk("idx", b, i)


def _rowindex(i):
    return i.op == "slice" or rank(i) in (0, 1)


t.REBUILD_IDX = idx


def stack_row(b):
    return t.stack(("row", b))


# ---------------------------------------------------------------- bound vars
def bvdepth(x, memo={}):
    r = memo.get(x)
    if r is None:
        r = 0
        if x.op == "bv":
            r = x.args[0]
        else:
            for y in t.subterms(x):
                r = max(r, bvdepth(y))
        memo[x] = r
    return r


def bind(body, iota):
    d = bvdepth(body) + 1
    return t.subst(body, {iota: mk("bv", d)})


def comp(n, body, iota):
    """[body(iota) for iota in range(n)] as a canonical term."""
    if n is ZERO:
        return t.stack()
    if not t.has(body, lambda x: x is iota):
        b = body
        return mk("comp", n, b)
    b = bind(body, iota)
    # identity comprehension over the rows of X
    if b.op == "idx" and b.args[1].op == "bv" and b.args[1].args[0] == bvdepth(b):
        X = b.args[0]
        if bvdepth(X) < bvdepth(b) and nrows(X) is n:
            return X
    return mk("comp", n, b)


def subst_bv(body, c, i):
    d = bvdepth(body)
    return t.subst(body, {mk("bv", d): i})


def sumover(n, body, iota):
    if body.op == "ite" and not t.has(body.args[0], lambda x: x is iota):
        c = body.args[0]
        return ite(c, sumover(t.simp(n, t.Facts([c])), body.args[1], iota), sumover(t.simp(n, t.Facts([t.not_(c)])), body.args[2], iota))
    if not t.has(body, lambda x: x is iota):
        return mul(n, body)
    # linear: split polynomial
    p = as_poly(body)
    if len(p) > 1:
        r = ZERO
        for m, c in p.items():
            r = add(r, sumover(n, from_poly({m: c}), iota))
        return r
    (m, c), = p.items()
    dep = [(x, e) for x, e in m if t.has(x, lambda y: y is iota)]
    ind = [(x, e) for x, e in m if not t.has(x, lambda y: y is iota)]
    body2 = from_poly({tuple(dep): 1})
    fac = from_poly({tuple(ind): c})
    if body2.op == "idx" and body2.args[1] is iota and nrows(body2.args[0]) is n and not t.has(body2.args[0], lambda y: y is iota):
        return mul(fac, sumrows(body2.args[0]))
    return mul(fac, mk("sumover", n, bind(body2, iota)))


def _re_sumover(n, b):
    d = bvdepth(b)
    v = mk("bv", d)
    if d == 0 or not t.has(b, lambda y: y is v):
        return mul(n, b)
    io = mk("iota", "#re%d" % d)
    return sumover(n, t.subst(b, {v: io}), io)


def _re_comp(n, b):
    d = bvdepth(b)
    v = mk("bv", d)
    if d == 0 or not t.has(b, lambda y: y is v):
        return mk("comp", n, b)
    io = mk("iota", "#re%d" % d)
    return comp(n, t.subst(b, {v: io}), io)


# ------------------------------------------------------------------ row sums
def sumrows(x):
    op = x.op
    if op == "num":
        return mul(x, app("len", x)) if x is not ZERO else ZERO
    if op == "ite":
        return ite(x.args[0], sumrows(x.args[1]), sumrows(x.args[2]))
    if op == "stack":
        r = ZERO
        for k, y in x.args:
            r = add(r, y if k == "row" else sumrows(y))
        return r
    if op == "comp":
        n, b = x.args
        d = bvdepth(b)
        io = mk("iota", "#sum")
        return sumover(n, t.subst(b, {mk("bv", d): io}) if t.has(b, lambda y: y.op == "bv" and y.args[0] == d) else b, io)
    if op == "poly":
        mr = rank(x)
        if mr is not None and mr >= 1:
            r = ZERO
            for m, c in x.args[0]:
                mats = [(y, e) for y, e in m if rank(y) == mr]
                rest = [(y, e) for y, e in m if rank(y) != mr]
                f = from_poly({tuple(rest): c})
                if not mats:
                    r = add(r, mul(nrows(x), f))
                elif len(mats) == 1 and mats[0][1] == 1:
                    r = add(r, mul(f, sumrows(mats[0][0])))
                else:
                    r = add(r, mul(f, mk("sumrows", from_poly({tuple(mats): 1}))))
            return r
    if op == "idx":
        b, i = x.args
        if i.op == "slice":
            lo, hi, st = i.args
            if st is NONE and lo is NONE and t.isnum(hi) and -4 <= hi.args[0] < 0:
                r = sumrows(b)
                for k in range(1, int(-hi.args[0]) + 1):
                    r = sub(r, idx(b, num(-k)))
                return r
            if st is NONE and hi is NONE and t.isnum(lo) and 0 < lo.args[0] <= 4:
                r = sumrows(b)
                for k in range(int(lo.args[0])):
                    r = sub(r, idx(b, num(k)))
                return r
            if st is NONE and hi is NONE and t.isnum(lo) and -4 <= lo.args[0] < 0:
                r = ZERO
                for k in range(1, int(-lo.args[0]) + 1):
                    r = add(r, idx(b, num(-k)))
                return r
            if st is not NONE and t.isnum(st) and st.args[0] == -1 and lo is NONE and hi is NONE:
                return sumrows(b)
    if op == "store":
        b, i, v = x.args
        if rank(i) == 0 and i.op != "slice" and i.op != "tuple":
            return add(sub(sumrows(b), idx(b, i)), v)
        if i.op == "slice":
            # rows b[i] replaced by v
            if rank(v) is not None and rank(v) == rank(b):
                return add(sub(sumrows(b), sumrows(idx(b, i))), sumrows(v))
    return mk("sumrows", x)


t.REBUILD_SUM = sumrows
t.REBUILD_SUMOVER = _re_sumover
t.REBUILD_COMP = _re_comp


def store(b, i, v):
    if i is FULL or (i.op == "tuple" and all(y is FULL for y in i.args)) or (i.op == "py" and i.args[0] == "..."):
        return v
    if i.op == "tuple" and len(i.args) > 1 and all(y is FULL for y in i.args[1:]) and i.args[0].op != "py":
        return store(b, i.args[0], v)
    if b.op == "store" and b.args[1] is i:
        b = b.args[0]
    if idx(b, i) is v and b.op != "num":
        return b
    return mk("store", b, i, v)
