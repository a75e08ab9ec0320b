from .common import *
from .c11 import refuses
from .small import Small
import numpy as np

EXPLANATION = ("Each kind of invalid request is analysed under the assumption that makes it invalid (unequal lengths, repeated time, value out of "
               "range, nothing decomposed yet): abstract interpretation with that fact must leave no normal exit, only the documented exception.")
RULE = "under the assumption the call has no normal exit: every path raises the documented exception"


def n(x, d=0):
    return app("len", sym(x)) if not d else app("dim", sym(x), num(d))


def lt(a, b):
    return lambda I, st, av: t.lt0(t.sub(a, b))


def le(a, b):
    return lambda I, st, av: t.le0(t.sub(a, b))


def _w(**k):
    m = {"lenS": n("S"), "lenT": n("T"), "lenI": n("IMFs"), "alpha": sym("alpha"), "r": sym("rescaling_imf")}
    return {m[a]: num(t.q(b)) for a, b in k.items()}


WITNESS = {
    "time axis shorter than the signal": [_w(lenS=a, lenT=b) for a, b in ((3, 2), (100, 99), (100, 1), (100, 50), (2, 1))],
    "time axis longer than the signal": [_w(lenS=a, lenT=b) for a, b in ((2, 3), (99, 100), (1, 100), (50, 100), (1, 2))],
    "alpha at or below 0": [_w(alpha=a) for a in (0, -1, -0.5, -2)],
    "alpha at or above 1": [_w(alpha=a) for a in (1, 2, 1.5, 100)],
    "rescaling_imf negative": [_w(r=a) for a in (-1, -2, -10)],
    "rescaling_imf beyond the last component": [_w(r=a, lenI=b) for a, b in ((3, 2), (2, 1), (10, 2), (100, 99))],
    "alpha at or above 0.5": [_w(alpha=a) for a in (0.5, 1, 2)],
    "alpha at or below -0.5": [_w(alpha=a) for a in (-0.5, -1, -2)],
}


def scenarios():
    S, T = arrin("S"), arrin("T")
    m = scin("max_imf")
    E = "PyEMD.EMD.EMD."
    for nm, a, b in (("shorter", n("T"), n("S")), ("longer", n("S"), n("T"))):
        yield "EMD.emd: time axis %s than the signal" % nm, E + "emd", dict(args=[S, T, m], assume=[lt(a, b)]), {"ValueError"}
        yield "EMD.__call__: time axis %s than the signal" % nm, E + "__call__", dict(args=[S, T, m], assume=[lt(a, b)]), {"ValueError"}
        yield "numba emd: time axis %s than the signal" % nm, "PyEMD.experimental.jitemd.emd", dict(args=[S, T, m], kw={"config": runs.config_dict}, assume=[lt(a, b)]), {"ValueError"}
        yield "JitEMD.emd: time axis %s than the signal" % nm, "PyEMD.experimental.jitemd.JitEMD.emd", dict(args=[S, T, m], assume=[lt(a, b)]), {"ValueError"}
        yield "EMD_matlab: time axis %s than the signal" % nm, "PyEMD.EMD_matlab.EMD.emd", dict(args=[runs.instance("PyEMD.EMD_matlab.EMD"), S, T, m], gen=False, assume=[lt(a, b)]), {"ValueError"}
    d = lambda I, st, av: t.not_(app("np.all", t.not_(t.eq0(t.sub(arr.idx(sym("T"), mk("slice", ONE, NONE, NONE)), arr.idx(sym("T"), mk("slice", NONE, num(-1), NONE)))))))
    for q in ("EMD", "EEMD", "CEEMDAN"):
        yield "%s.get_imfs_and_residue before any decomposition" % q, "PyEMD.%s.%s.get_imfs_and_residue" % (q, q), dict(gen=False), {"ValueError"}
    yield "EMD.get_imfs_and_trend before any decomposition", E + "get_imfs_and_trend", dict(gen=False), {"ValueError"}
    W = "PyEMD.checks.whitenoise_check"
    I2 = arrin("IMFs", 2)
    full = [lt(ZERO, n("IMFs")), lt(ZERO, n("IMFs", 1)), lambda I, st, av: t.lt0(t.neg(app("len", arr.idx(sym("IMFs"), ZERO))))]
    ok = dict(test_name=V(py("apriori")), rescaling_imf=V(ONE), alpha=V(num(t.q(0.95))))

    def wc(assume=(), **k):
        return dict(args=[k.pop("IMFs", I2)], kw=dict(ok, **k), assume=full + list(assume))
    A = {"AssertionError", "ValueError", "TypeError"}
    yield "whitenoise_check: alpha at or below 0", W, wc(alpha=scin("alpha"), assume=[le(sym("alpha"), ZERO)]), A
    yield "whitenoise_check: alpha at or above 1", W, wc(alpha=scin("alpha"), assume=[le(ONE, sym("alpha"))]), A
    yield "whitenoise_check: unknown test", W, wc(test_name=V(py("bubble_gum"))), A
    yield "whitenoise_check: rescaling_imf 0", W, wc(rescaling_imf=V(ZERO)), A
    yield "whitenoise_check: rescaling_imf negative", W, wc(rescaling_imf=scin("rescaling_imf"), assume=[lt(sym("rescaling_imf"), ZERO)]), A
    yield "whitenoise_check: rescaling_imf beyond the last component", W, wc(rescaling_imf=scin("rescaling_imf"), assume=[lt(n("IMFs"), sym("rescaling_imf"))]), A
    yield "whitenoise_check: components not an array", W, dict(args=[lambda I, st: LRef(I.new(st, kind="list", items=(V(ONE), V(ZERO))))], kw=ok), A
    U = "PyEMD.utils."
    for dt in ("complex128", "bool", "str"):
        pass
    V_ = "PyEMD.visualisation.Visualisation."
    none = dict(ctor=dict(kw={"emd_instance": V(NONE)}), gen=False)
    yield "Visualisation.plot_imfs with nothing to plot", V_ + "plot_imfs", dict(kw={"imfs": V(NONE), "residue": V(NONE), "t": V(NONE)}, **none), {"AttributeError", "ValueError"}
    yield "Visualisation.plot_imfs without the requested residue", V_ + "plot_imfs", dict(kw={"imfs": arrin("imfs", 2), "residue": V(NONE), "t": V(NONE), "include_residue": V(TRUE)}, **none), {"AttributeError", "ValueError"}
    yield "Visualisation.plot_instant_freq with nothing to plot", V_ + "plot_instant_freq", dict(args=[arrin("t")], kw={"imfs": V(NONE)}, **none), {"AttributeError", "ValueError"}
    for nm, a in (("at or above 0.5", le(num(t.q(0.5)), sym("alpha"))), ("at or below -0.5", le(sym("alpha"), num(t.q(-0.5))))):
        yield "Visualisation.plot_instant_freq: alpha %s" % nm, V_ + "plot_instant_freq", dict(
            args=[arrin("t")], kw={"imfs": arrin("imfs", 2), "alpha": scin("alpha")}, assume=[a, lambda I, st, av: t.not_(mk("is", sym("alpha"), NONE))], **none), A
    J = "PyEMD.experimental.jitemd."


def reading(fs, ts):
    """Whether the conditions of the normal exit that speak of the times hold for these times (None: not read)."""
    T, S = sym("T"), sym("S")
    sm = Small({T: np.array([num(x) for x in ts], dtype=object), app("len", T): num(len(ts)), app("dim", T, ZERO): num(len(ts)), app("len", S): num(len(ts)), app("dim", S, ZERO): num(len(ts))})
    hit = False
    for g in fs:
        if not any(y is T for y in t.walk(g)):
            continue
        try:
            if not sm.truth(g):
                return ts, False
            hit = True
        except Unknown:
            return ts, None
        except Exception:
            return ts, None
    return ts, True if hit else None


def repeated(prog, rep):
    """Time values that do not differ from their neighbour are refused when the time axis matters."""
    name = "EMD.emd extrema_detection=parabol: repeated time value"
    r = enter(prog, "PyEMD.EMD.EMD._normalize_time", args=[arrin("T")]) if False else enter(
        prog, "PyEMD.EMD.EMD.emd", args=[arrin("S"), arrin("T"), scin("max_imf")], selfattrs={"extrema_detection": V(py("parabol"))},
        opaque={"PyEMD.EMD.EMD.find_extrema": lambda I, st, a, k, nd: I.npm.opaque(I, st, "find_extrema", a, k, nd)})
    rep.covered(r)
    T = sym("T")
    d = t.sub(arr.idx(T, mk("slice", ONE, NONE, NONE)), arr.idx(T, mk("slice", NONE, num(-1), NONE)))
    # facts at the normal exit must exclude a zero difference between neighbours
    fs = [g for g, _ in r.st.guard]

    def excludes(g):
        if g.op == "and":
            return any(excludes(x) for x in g.args)
        if g.op == "not" and g.args[0].op == "app" and g.args[0].args[0] == "np.any":
            b = g.args[0].args[1]
            return b.op == "eq0" and diffy(b.args[0]) or b.op == "le0" and diffy(b.args[0], -1)
        if g.op == "app" and g.args[0] == "np.all":
            b = g.args[1]
            if b.op == "not" and b.args[0].op == "eq0":
                return diffy(b.args[0].args[0])
            if b.op == "lt0":
                return diffy(b.args[0], -1)
        return False

    def diffy(x, s=0):
        ok = [d, t.neg(d)] if s == 0 else [t.neg(d)]
        return any(x is y or t.is_zero(t.sub(x, y)) for y in ok)
    raised = [e for e in r.I.events if e.kind == "raise" and any(y is T for g, _ in e.guard for y in t.walk(g))]
    hit = [e for e in raised if any(y.op == "eq0" and diffy(y.args[0]) or y.op in ("lt0", "le0") and (diffy(y.args[0]) or diffy(t.neg(y.args[0]))) for g, _ in e.guard for y in t.walk(g))]
    seen = [reading(fs, ts) for ts in ((0, 1, 1, 2, 3), (0, 0, 1), (0, 1, 2, 2), (0, 0, 1, 2, 2), (1, 1), (0, 2, 2, 7, 8, 9))]
    for ts, v in seen:
        if v is True:
            rep.bad(name, RULE, where(r), "accepted: the time values %s pass every test" % (list(ts),))
            return
    if any(excludes(g) for g in fs):
        rep.ok(name, RULE, (hit or [r.I.events[0]])[0].where(), "normal exit requires all neighbouring time values to differ")
    elif hit:
        rep.undecided(name, RULE, hit[0].where(), "refused when %s" % facts_str([g for g, _ in hit[0].guard]))
    else:
        other = [e for e in raised if str(e.name) in ("AssertionError", "ValueError") and not any(y.op == "app" and y.args[0] == "len" and False for g, _ in e.guard for y in t.walk(g))]
        vals = [e for e in other if any(z is T for g, _ in e.guard for y in t.walk(g) if y.op == "idx" for z in t.walk(y))]
        if vals:
            rep.undecided(name, RULE, vals[0].where(), "refused when %s" % facts_str([g for g, _ in vals[0].guard]))
        else:
            rep.bad(name, RULE, where(r), "no path refuses a time axis with repeated neighbouring values")


def check(prog, rep, tier):
    for name, q, kw, exc in scenarios():
        kw = dict(kw)
        if ("EEMD" in q or "CEEMDAN" in q) and "ctor" not in kw:
            kw["ctor"] = dict(kw={"ext_EMD": V(NONE)})
        rep.guard(name, RULE, lambda: refuses(rep, name, RULE, enter(prog, q, **kw), exc, WITNESS.get(name.split(": ", 1)[-1], ())))
    rep.guard("repeated time value", RULE, lambda: repeated(prog, rep))
