"""Equality of two analysed terms, one from the code and one from the documented formula.

Boolean structure is compared by truth tables over canonical comparisons; everything else by value-number identity.  A difference counts
only when the code's term is built from operations the normal form covers (those of the formula and plain arithmetic); otherwise the
answer is "unknown"."""
from .common import t, app, mk, unknown_atoms, TRUE, FALSE
from .loopstep import lits, table, columns, canon, embedded

PLAIN = {"np.sum", "np.any", "np.all", "np.abs", "abs", "np.max", "np.min", "size", "len", "rows", "np.allclose", "cast"}


def isbool(x):
    return x.op in ("lt0", "le0", "eq0", "and", "or", "not", "bool", "eq", "is")


def counted(x):
    """Boolean array whose true entries x counts."""
    if x.op == "app" and x.args[0] in ("np.sum", "np.count_nonzero") and len(x.args) == 2 and isbool(x.args[1]):
        return x.args[1]
    return None


def anyof(c):
    if c.op == "or":
        return ("or",) + tuple(anyof(y) for y in c.args)
    if c.op == "bool":
        return bool(c.args[0])
    return ("leaf", app("np.any", c))


def form(x):
    op = x.op
    if op == "bool":
        return bool(x.args[0])
    if op in ("and", "or"):
        return (op,) + tuple(form(y) for y in x.args)
    if op == "not":
        return ("not", form(x.args[0]))
    if op == "ite":
        return ("ite", form(x.args[0]), form(x.args[1]), form(x.args[2]))
    if op == "app" and x.args[0] == "np.any" and len(x.args) == 2:
        return anyof(x.args[1])
    if op == "app" and x.args[0] == "np.all" and len(x.args) == 2:
        return ("not", anyof(t.not_(x.args[1])))
    if op == "app" and x.args[0] in ("bool", "cast") and len(x.args) == 2:
        return form(x.args[1])
    if op in ("lt0", "le0", "eq0"):
        p = x.args[0]
        q = embedded(x, ())
        if q is not None:
            return form(t.ite(q.args[0], t.subst(x, {q: q.args[1]}), t.subst(x, {q: q.args[2]})))
        c = counts(p)
        if c is not None:
            k, pos, bs = c
            some = ("or",) + tuple(anyof(b) for b in bs)
            if pos:                       # k + count  ? 0
                if op == "le0" and k == 0 or op == "lt0" and k == -1 or op == "eq0" and k == 0:
                    return ("not", some)
                if op == "lt0" and k == 0:
                    return False
            else:                         # k - count ? 0
                if op == "lt0" and k == 0 or op == "le0" and k == 1:
                    return some
                if op == "eq0" and k == 0:
                    return ("not", some)
                if op == "le0" and k == 0:
                    return True
        l = length(p)
        if l is not None:
            k, pos, z = l
            none = ("leaf", t.eq0(z))
            if pos:                       # k + len ? 0
                if op == "le0" and k == 0 or op == "lt0" and k == -1 or op == "eq0" and k == 0:
                    return none
                if op == "lt0" and k == 0:
                    return False
            else:                         # k - len ? 0
                if op == "lt0" and k == 0 or op == "le0" and k == 1:
                    return ("not", none)
                if op == "eq0" and k == 0:
                    return none
                if op == "le0" and k == 0:
                    return True
        e = extreme(p)
        if e is not None and op in ("lt0", "le0"):
            name, body = e                # c * min(x) + k < 0  iff  some c * x + k < 0
            c = t.lt0(body) if op == "lt0" else t.le0(body)
            return anyof(c) if name == "min" else ("not", anyof(t.not_(c)))
        z, c = magnitude(p)
        if z is not None and op in ("lt0", "le0"):
            f = t.lt0 if op == "lt0" else t.le0           # c |z| + r < 0, by the sign of z
            return ("and" if c > 0 else "or", form(f(t.subst(p, {z: z.args[1]}))), form(f(t.subst(p, {z: t.neg(z.args[1])}))))
        y, pos = canon(x)
        return ("leaf", y) if pos else ("not", ("leaf", y))
    return ("leaf", x)


def magnitude(p):
    """(|z|, c) when p is c |z| + rest"""
    hit = None, 0
    if p.op == "poly":
        for m, c in p.args[0]:
            for z, e in m:
                if z.op == "app" and z.args[0] in ("np.abs", "abs") and len(z.args) == 2:
                    if len(m) != 1 or e != 1 or hit[0] is not None:
                        return None, 0
                    hit = z, c
    return hit


def length(p):
    """(k, sign, z) when p is k + z or k - z with z a length."""
    k, hit = 0, None
    for m, c in (t.as_poly(p).items() if isinstance(t.as_poly(p), dict) else t.as_poly(p)):
        if not m:
            k = c
        elif hit is None and len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "app" and m[0][0].args[0] in ("len", "size", "rows"):
            hit = (c > 0, m[0][0])
        else:
            return None
    return None if hit is None else (k,) + hit


def extreme(p):
    """c * np.min(x) + k (x an array, k a number or option): ("min"|"max" after sign, the same with x for its extreme)."""
    if p.op != "poly":
        p = mk("poly", ((((p, 1),), 1),)) if p.op == "app" and p.args[0] in ("np.min", "np.max") else p
        if p.op != "poly":
            return None
    hit = None
    for m, c in p.args[0]:
        for z, e in m:
            if z.op == "app" and z.args[0] in ("np.min", "np.max") and len(z.args) == 2:
                if hit is not None or len(m) != 1 or e != 1:
                    return None
                hit = (z, c)
            elif z.op not in ("sym", "num") and not (z.op == "app" and z.args[0] == "dget"):
                return None
    if hit is None:
        return None
    z, c = hit
    return ("min" if (z.args[0] == "np.min") == (c > 0) else "max"), t.subst(p, {z: z.args[1]})


def counts(p):
    """k +- sum of counts of true entries."""
    if p.op != "poly":
        b = counted(p)
        return (0, True, [b]) if b is not None else None
    k, bs, sg = 0, [], set()
    for m, c in p.args[0]:
        if not m:
            k = c
        elif len(m) == 1 and m[0][1] == 1 and counted(m[0][0]) is not None and abs(c) == 1:
            bs.append(counted(m[0][0]))
            sg.add(c > 0)
        else:
            return None
    return (k, sg.pop(), bs) if len(sg) == 1 else None


def vocabulary(x):
    out = set()
    for y in t.walk(x):
        if y.op == "app":
            out.add(y.args[0])
    return out


def compare(a, b, extra=()):
    """("equal" | "different" | "unknown", explanation) for code term a and formula term b."""
    if a is b:
        return "equal", ""
    if boolish(b) or boolish(a):
        fa, fb = form(a), form(b)
        ls = {}
        lits(fa, ls)
        lits(fb, ls)
        ls = list(ls)
        if len(ls) > 16:
            return "unknown", "%d conditions" % len(ls)
        tab, full = columns(ls)
        d = table(fa, tab, full) ^ table(fb, tab, full)
        if not d:
            return "equal", ""
        k = (d & -d).bit_length() - 1
        why = "differs when " + " & ".join(("" if k >> i & 1 else "!") + t.show(l, 3) for i, l in enumerate(ls))[:300]
        la, lb = {}, {}
        lits(fa, la)
        lits(fb, lb)
        new = [l for l in la if l not in lb]
        if new:
            why += "; condition %s is not in the formula" % t.show(new[0], 4)[:200]
    else:
        why = "computes %s instead of %s" % (t.show(a, 4)[:200], t.show(b, 4)[:200])
    strange = vocabulary(a) - vocabulary(b) - PLAIN - set(extra)
    if strange or unknown_atoms(a):
        return "unknown", why + (" (operations %s)" % sorted(map(str, strange))[:4] if strange else "")
    return "different", why


def boolish(x):
    return isbool(x) or x.op == "ite" and boolish(x.args[1]) or x.op == "app" and x.args[0] in ("np.any", "np.all", "np.allclose", "bool")
