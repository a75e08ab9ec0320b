from .common import *

EXPLANATION = ("Gated value numbering of each decomposition method on a symbolic signal (all options symbolic, loops closed by "
               "fixpoint/phi): the returned component matrix summed over its rows must be identical to the input signal on "
               "every gate; a part of it may be left out only under a test that bounds it by 1e-8.  Loops are discharged by "
               "loop invariant (initial value, back edge).")
RULE = "sum over returned rows - input == 0 as value numbers, on every gate (dropped part tested <= 1e-8)"


R_FLAT = "no division by the deviation or range of the input where that may be zero"


def one(rep, name, mk_run, S, post=None):
    def go():
        r = mk_run()
        rep.covered(r)
        ret = r.returned if post is None else post(r)
        P = Prover(r.I)
        v = P.zero(t.sub(arr.sumrows(ret), S))
        w = (P.bad or P.unknown or [((), ZERO)])[0]
        rep.verdict(v, name, RULE, where(r), "" if v == "ok" else "missing/extra part %s when %s" % (t.show(w[1], 5), facts_str(w[0])))
        if isinstance(ret, t.Term):
            q = flat(r, ret, S)
            if q is not None:
                rep.bad(name + " constant input", R_FLAT, where(r), "divides by %s, zero for a constant input: the components are not numbers" % t.show(q, 4))
            else:
                rep.ok(name + " constant input", R_FLAT, where(r))
    rep.guard(name, RULE, go)


def flat(r, rows, S):
    """A division by the deviation or the range of the input in its result, not avoided when that is zero (a constant input)."""
    qs = [app("np.std", S), t.sub(app("np.max", S), app("np.min", S)), app("np.ptp", S), app("np.var", S)]
    for q in qs:
        n = t.neg(q)
        todo, seen = [rows], set()
        while todo:
            x = todo.pop()
            x = t.subst(x, {t.eq0(q): TRUE, t.eq0(n): TRUE, t.le0(q): TRUE, t.lt0(n): FALSE})
            for _ in range(4):
                ys = {y: y.args[2] for y in t.walk(x) if y.op == "ite" and y.args[0] is q}
                if not ys:
                    break
                x = t.subst(x, ys)
            for y in t.walk(x):
                if y.op == "poly" and any(b is q and e < 0 for m, c in y.args[0] for b, e in m):
                    return q
                if y.op == "phi" and y not in seen and y in r.I.phis:
                    seen.add(y)
                    todo += [r.I.phis[y][k] for k in ("init", "back") if isinstance(r.I.phis[y].get(k), t.Term)]
    return None


def check(prog, rep, tier):
    S = sym("S")
    one(rep, "EMD without time axis", lambda: runs.emd(prog), S)
    one(rep, "EMD with time axis", lambda: runs.emd(prog, T="arr"), S)
    for T in ("none", "arr"):
        for par in (False, True):
            one(rep, "CEEMDAN T=%s parallel=%s" % (T, par), lambda: runs.ceemdan(prog, parallel=par, T=T), S)
    one(rep, "EMD2D", lambda: runs.emd2d(prog), sym("image"))
    one(rep, "BEMD", lambda: runs.bemd(prog), sym("image"))
    one(rep, "numba EMD function", lambda: runs.jitfun(prog), sym("s"))
    one(rep, "numba EMD class", lambda: runs.jitemd(prog), sym("s"))
    one(rep, "MATLAB-style EMD", lambda: runs.matlab(prog), S, post=matlab_rows)


def matlab_rows(r):
    from sa.interp import drows
    x = r.returned
    if x.op == "app" and x.args[0] == "tuple" or x.op == "tuple":
        return drows(x.args[1] if x.op == "app" else x.args[0])
    v = r.value
    if isinstance(v, Tup):
        return drows(r.I.read(r.st, v.items[0]))
    raise ValueError("unexpected result shape")
