from .common import *
from .refute import Numeric, Draw
from .small import OutOfTable
import numpy as np

EXPLANATION = ("Value numbering of a decomposition followed by its accessors on the state the decomposition leaves: the components and "
               "residue (or trend) handed out by the accessors must add up to the analysed signal, and must be the rows the "
               "decomposition returned.")
RULE = "value numbers of accessor results after a run: sum of components + residue == input; components == returned rows"


def zero(rep, r, name, d, wh, what):
    P = Prover(r.I)
    v = P.zero(d)
    w = (P.bad or P.unknown or [((), ZERO)])[0]
    rep.verdict(v, name, RULE, wh, "" if v == "ok" else "%s: difference %s when %s" % (what, t.show(w[1], 5), facts_str(w[0])))


def pair(r2, v):
    """(components, remainder) terms, per gate."""
    if isinstance(v, Tup) and len(v.items) == 2:
        return r2.term(v.items[0]), r2.term(v.items[1])
    x = r2.term(v)
    if x.op == "tuple" and len(x.args) == 2:
        return x.args
    if x.op == "ite":
        def side(y, k):
            if y.op == "tuple":
                return y.args[k]
            if y.op == "ite":
                return t.ite(y.args[0], side(y.args[1], k), side(y.args[2], k))
            raise ValueError("not a pair")
        return side(x, 0), side(x, 1)
    raise ValueError("accessor result is not a pair")


def rowsum(x):
    return arr.sumrows(x) if arr.rank(x) == 2 else x


def everywhere_zero(d, cs, M, R):
    """the difference d vanishes for all small sets of components on which it could be computed (and there were some)"""
    done = 0
    for k in range(120):
        draw = Draw(k + 1)
        rows, n = 1 + draw(4), 1 + draw(4)
        m = np.empty((rows, n), dtype=object)
        for ix in np.ndindex(rows, n):
            m[ix] = num(draw(19) - 9)
        q = np.empty(n, dtype=object)
        rest = draw(2)
        for j in range(n):
            q[j] = num(rest * (draw(19) - 9))
        env = {M: m, R: q}
        try:
            sm = Numeric(env)
            if not all(sm.truth(c) for c in cs):
                continue
            v = sm.ev(d)
            ok = all(y is ZERO for y in (v.reshape(-1) if isinstance(v, np.ndarray) else [v]))
        except (Unknown, OutOfTable, ZeroDivisionError, KeyError, ValueError, TypeError, AttributeError, IndexError):
            continue
        if not ok:
            return False
        done += 1
    return done >= 20


def accessor(rep, name, r, meth, S, small=None):
    r2 = en.call_method(r, meth)
    wh = "%s:%d %s" % (r2.func.module.rel, r2.func.node.lineno, r2.func.qual)
    v = r2.value
    if isinstance(v, VIte):
        parts = []

        def go(v, cs):
            if isinstance(v, VIte):
                go(v.a, cs + [v.c])
                go(v.b, cs + [t.not_(v.c)])
            else:
                parts.append((cs, pair(r2, v)))
        go(v, [])
    else:
        parts = [([], pair(r2, v))]
    for cs, (a, b) in parts:
        P = Prover(r.I)
        vd = P.zero(t.sub(t.add(arr.sumrows(a), rowsum(b)), S), [c for c in cs if c is not TRUE])
        w = (P.bad or P.unknown or [((), ZERO)])[0]
        if vd == "bad" and small and all(everywhere_zero(x[1], x[0], *small) for x in P.bad):
            vd = "undecided"
        rep.verdict(vd, name + " adds up to the signal", RULE, wh, "" if vd == "ok" else "difference %s when %s" % (t.show(w[1], 5), facts_str(w[0])))
    return r2, parts


def modular(rep, r, name):
    """The trend accessor on a state holding any components M and remainder R (their sum is settled by the residue accessor)."""
    st = r.st.fork()
    M, R = sym("stored.imfs"), sym("stored.residue")
    arr.RANK[M], arr.RANK[R] = 2, 1
    c = st.heap[r.self_ref.cid]
    at = dict(c.attrs)
    at["imfs"], at["residue"] = r.I.newarr(st, M, 2), r.I.newarr(st, R, 1)
    st.heap[r.self_ref.cid] = c.upd(attrs=at)
    r2 = en.call_method(en.Run(r.I, st, r.value, r.self_ref, r.inputs, r.func), "get_imfs_and_trend")
    seen = set(t.walk(r2.term(r2.value)))
    if not ({M, R} & seen):
        return accessor(rep, name, r, "get_imfs_and_trend", sym("S"))
    accessor(rep, name, en.Run(r.I, st, r.value, r.self_ref, r.inputs, r.func), "get_imfs_and_trend", t.add(arr.sumrows(M), R), (M, R))


def check(prog, rep, tier):
    S = sym("S")

    def emd(T):
        r = runs.emd(prog, T=T)
        rep.covered(r)
        nm = "EMD T=%s " % T
        r2, parts = accessor(rep, nm + "get_imfs_and_residue", r, "get_imfs_and_residue", S)
        modular(rep, r, nm + "get_imfs_and_trend")
        # returned rows are the stored components, then the residue
        for cs, (imfs, res) in parts:
            rows_match(rep, r, nm, cs, imfs, res)
    for T in ("none", "arr"):
        rep.guard("EMD accessors T=%s" % T, RULE, lambda: emd(T))

    def ens(nm, mk, attr):
        r = mk()
        rep.covered(r)
        r2, parts = accessor(rep, nm + " get_imfs_and_residue", r, "get_imfs_and_residue", S)
        for cs, (imfs, res) in parts:
            if imfs is r.returned:
                rep.ok(nm + " components are the returned rows", RULE, where(r))
            else:
                zero(rep, r, nm + " components are the returned rows", t.sub(imfs, r.returned), where(r), "accessor components differ from the returned matrix")
    for par in (False, True):
        for T in ("none", "arr"):
            rep.guard("EEMD accessors", RULE, lambda: ens("EEMD parallel=%s T=%s" % (par, T), lambda: runs.eemd(prog, parallel=par, T=T), "E_IMF"))
            rep.guard("CEEMDAN accessors", RULE, lambda: ens("CEEMDAN parallel=%s T=%s" % (par, T), lambda: runs.ceemdan(prog, parallel=par, T=T), "C_IMF"))

    def jit():
        r = runs.jitemd(prog)
        rep.covered(r)
        imfs, res = r.attr_term("imfs"), r.attr_term("residue")
        if imfs is not None and res is not None:
            zero(rep, r, "numba EMD stored components and residue", t.sub(t.add(rowsum(imfs), rowsum(res)), sym("s")), where(r), "stored result")
    rep.guard("numba EMD", RULE, jit)


def join(a, q):
    return t.stack(*((a.args if a.op == "stack" else (("mat", a),)) + (("row", q),)))


def rows_match(rep, r, nm, cs, imfs, res):
    """The returned matrix is, per gate, the stored components followed by the residue, or the components alone when it is zero."""
    name = nm + "returned rows are the stored components and residue"
    n = [0]
    full = join(imfs, res)

    def go(x, facts, depth):
        n[0] += 1
        if x is full:
            return "ok", None
        if x is imfs and Prover(r.I).zero(res, facts) == "ok":
            return "ok", None
        if x.op == "ite" and x is not imfs and depth < 4:
            c = x.args[0]
            out = "ok", None
            for lit, y in ((c, x.args[1]), (t.not_(c), x.args[2])):
                v = go(y, list(facts) + [lit], depth + 1)
                if v[0] == "bad":
                    return v
                if v[0] == "unknown":
                    out = v
            return out
        return deep(x, facts, depth)

    def deep(x, facts, depth):
        n[0] += 1
        F = t.Facts(list(facts))
        x = t.simp(x, F)
        a, q = t.simp(imfs, F), t.simp(res, F)
        if x is t.simp(full, F) or x is join(a, q):
            return "ok", None
        if x is a and Prover(r.I).zero(q, facts) == "ok":
            return "ok", None
        y, lift = x, None
        if x.op == "ite":
            c = x.args[0]
        elif a.op == "ite":
            c = a.args[0]
        elif x.op == "stack" and any(p[1].op == "ite" for p in x.args):
            c = [p[1].args[0] for p in x.args if p[1].op == "ite"][0]
        else:
            if unknown_atoms(x) or unknown_atoms(a):
                return "unknown", (facts, x, "unknown value")
            if x is a:
                return "bad", (facts, x, "residue left out without being zero")
            return "bad", (facts, x, "returned rows are not the stored components followed by the residue")
        while c.op in ("and", "or", "not", "ite"):
            c = c.args[0]
        if depth > 12:
            return "unknown", (facts, x, "too many gates")
        res_ = "ok", None
        for lit in (c, t.not_(c)):
            fs = list(facts) + [lit]
            if inconsistent(fs):
                continue
            v = deep(x, fs, depth + 1)
            if v[0] == "bad":
                return v
            if v[0] == "unknown":
                res_ = v
        return res_

    v, w = go(r.returned, list(cs), 0)
    rep.verdict(v, name, RULE, where(r), "%d gates" % n[0] if v == "ok" else "%s: %s when %s" % (w[2], t.show(w[1], 5), facts_str(w[0])))
