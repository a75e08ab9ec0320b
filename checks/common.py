"""Helpers shared by the checks."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import terms as t, arr, runs, entry as en      # noqa: E402
from sa.terms import num, sym, py, app, mk, NONE, TRUE, FALSE, ZERO, ONE   # noqa: E402
from sa.interp import (Interp, State, V, Ref, LRef, DRef, ORef, Tup, Fn, Cls, Ext, VIte, Val, DElem)   # noqa: E402
from sa.entry import enter, arrin, scin, AnchorMissing, get_func, get_class   # noqa: E402
from sa.prove import Prover, unknown_atoms, inconsistent   # noqa: E402


def where(run):
    f = run.func
    return "%s:%d %s" % (f.module.rel, f.node.lineno, f.qual)


def facts_str(fs):
    return " & ".join(t.show(f, 3) for f in fs)[:400] or "always"


def origins(run, cids):
    out = set()
    for c in cids:
        cell = run.st.heap.get(c)
        if cell is not None and cell.origin:
            out.add(cell.origin)
    return out


class Unknown(Exception):
    pass


def ground(x, env):
    """Value of a term under an assignment of its atoms (numbers and booleans); raises Unknown when an atom is not assigned."""
    memo = {}

    def ev(y):
        if y in env:
            return env[y]
        if y in memo:
            return memo[y]
        v = ev_(y)
        memo[y] = v
        return v

    def ev_(y):
        op, a = y.op, y.args
        if op in ("num", "bool"):
            return a[0]
        if op == "poly":
            s = 0
            for m, c in a[0]:
                p = c
                for z, e in m:
                    v = ev(z)
                    if e < 0 and v == 0:
                        raise Unknown("division by zero")
                    p = p * v ** e
                s = s + p
            return s
        if op == "lt0":
            return ev(a[0]) < 0
        if op == "le0":
            return ev(a[0]) <= 0
        if op == "eq0":
            return ev(a[0]) == 0
        if op == "not":
            return not ev(a[0])
        if op == "and":
            return three(a, False)
        if op == "or":
            return three(a, True)
        if op == "ite":
            return ev(a[1] if ev(a[0]) else a[2])
        if op == "eq" and a[1].op in ("py", "num", "bool") and a[0] in env:
            return env[a[0]] == a[1].args[0]
        if op == "app":
            f = str(a[0])
            if f in ("np.minimum", "np.maximum", "np.min", "np.max", "min", "max") and len(a) > 2:
                v = [ev(z) for z in a[1:]]
                return min(v) if "min" in f else max(v)
            if f in ("np.abs", "abs"):
                return abs(ev(a[1]))
            if f in ("int", "float", "bool", "cast") and len(a) == 2:
                return {"bool": bool}.get(f, lambda q: q)(ev(a[1]))
        raise Unknown(t.show(y, 2))

    def three(xs, absorbing):
        unk = None
        for z in xs:
            try:
                if bool(ev(z)) == absorbing:
                    return absorbing
            except Unknown as e:
                unk = e
        if unk is not None:
            raise unk
        return not absorbing
    return ev(x)


def spread(x, q):
    """x in the case that the spread q of the input (its deviation or range, never negative) is not zero"""
    n = t.neg(q)
    for _ in range(4):
        ys = {y: y.args[1] for y in t.walk(x) if y.op == "ite" and y.args[0] is q}
        if not ys:
            break
        x = t.subst(x, ys)
    return t.subst(x, {t.eq0(q): FALSE, t.eq0(n): FALSE, t.le0(q): FALSE, t.lt0(n): TRUE, app("truthy", q): TRUE, app("bool", q): TRUE})
