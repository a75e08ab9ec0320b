from .common import *
from sa import deps
import itertools

EXPLANATION = ("Abstract interpretation of the option dispatch with the option fixed to each documented value and to values outside the documented "
               "set: the first must reach exactly the documented interpolator / detector / noise distribution, built on the given knots, the "
               "second must leave no normal exit.  Constructor options are followed symbolically into the object and into the inner decomposition.")
R_REF = "an undocumented option value leaves no normal exit (documented exception)"
R_SEL = "a documented option value selects its documented method"
R_FWD = "options given to an ensemble method reach its inner decomposition; a supplied EMD object is the one used"

UNKNOWN = ("bubble_gum", "", "cubicc")
FAMILY = {
    "akima": {"scipy.interpolate.Akima1DInterpolator"},
    "cubic": {"scipy.interpolate.CubicSpline", "scipy.interpolate.interp1d:cubic"},
    "pchip": {"scipy.interpolate.PchipInterpolator"},
    "cubic_hermite": {"scipy.interpolate.CubicHermiteSpline"},
    "slinear": {"scipy.interpolate.interp1d:slinear", "scipy.interpolate.interp1d:linear"},
    "linear": {"scipy.interpolate.interp1d:linear", "scipy.interpolate.interp1d:slinear"},
    "quadratic": {"scipy.interpolate.interp1d:quadratic"},
}
KNOWN = {x.split(":")[0] for v in FAMILY.values() for x in v} | {"scipy.interpolate.BarycentricInterpolator", "scipy.interpolate.KroghInterpolator"}


def admitted(r, choices):
    """A choice of values (atom -> constant) for which no raise of the analysed call can fire, or None.  A raise counts as a possible
    refusal of the request when its guard relates the chosen atoms and is not refuted by the choice."""
    evs = [e for e in r.I.events if e.kind == "raise"]
    preds = {}
    for e in evs:
        for g, _ in e.guard:
            for y in t.walk(g):
                if y.op == "eq" and y.args[1].op == "py" and isinstance(y.args[1].args[0], str) and y.args[0].op == "sym":
                    preds.setdefault(y.args[0], {})[y] = y.args[1]
    for ch in choices:
        keys = list(ch)
        free = [s for s in preds if s not in ch][:3]
        opts = [[None] + sorted(set(preds[s].values()), key=str) for s in free]
        for pick in itertools.product(*opts):
            m = dict(ch)
            for s, v in zip(free, pick):
                for pr, val in preds[s].items():
                    m[pr] = TRUE if val is v else FALSE
            if all(refuted(e, m, keys, set(getattr(r, 'assumed', ())) | {g for g, _ in r.st.guard}) for e in evs):
                return ch
    return None


def refuted(e, m, keys, assumed=()):
    rel = False
    for g, _ in e.guard:
        inst = {y: TRUE for y in t.walk(g) if y.op == "app" and y.args[0] == "isinstance"}     # otherwise well-typed requests
        if inst:
            g = t.subst(g, inst)
        if g in assumed:
            continue
        h = t.subst(g, m)
        if h.op == "bool" and not h.args[0]:
            return True
        if strval(h, m) is False:
            return True
        ks = set(keys)
        if ks <= set(t.walk(g)):
            rel = True
    return not rel


def strval(x, m):
    """Value of a term over string constants, or None."""
    def ev(y):
        if y.op in ("py", "num", "bool"):
            return y.args[0]
        if y.op == "not":
            return not ev(y.args[0])
        if y.op == "and":
            return all([ev(z) for z in y.args])
        if y.op == "or":
            return any([ev(z) for z in y.args])
        if y.op == "eq":
            return ev(y.args[0]) == ev(y.args[1])
        if y.op == "tuple":
            return tuple(ev(z) for z in y.args)
        if y.op == "app":
            a = [ev(z) for z in y.args[1:]]
            f = str(y.args[0])
            if f in ("str", "len"):
                return {"str": str, "len": len}[f](*a)
            if f.startswith("str.") and f[4:] in ("startswith", "endswith", "lower", "upper", "strip", "title", "casefold", "count", "find", "replace"):
                return getattr(str, f[4:])(*a)
            if f == "in":
                return a[0] in a[1]
        if y.op == "in":
            return ev(y.args[0]) in ev(y.args[1])
        if y.op == "idx":
            return ev(y.args[0])[ev(y.args[1])]
        raise KeyError
    try:
        v = ev(x)
    except Exception:
        return None
    return v if isinstance(v, bool) else None


def wordlist(r, documented):
    """Candidate option values outside the documented set, built from the strings the guards test for."""
    out = {"bubble_gum", "", "x"}
    for e in r.I.events:
        if e.kind == "raise":
            for g, _ in e.guard:
                for y in t.walk(g):
                    if y.op == "py" and isinstance(y.args[0], str):
                        w = y.args[0]
                        out |= {w, w + "x", "x" + w, w[:-1], w[:3], w + "_kind", "x" + w + "x"}
    for w in documented:
        out |= {w + "x", "x" + w, w[:-1], w[:3], w[1:]}
    doc = {w.lower() for w in documented}
    return sorted(w for w in out if w.strip().lower() not in doc)


def refuses(rep, name, rule, r, allowed, choices=()):
    """The analysed call must have no normal exit."""
    rep.covered(r)
    raised = [e for e in r.I.events if e.kind == "raise"]
    names = sorted({str(e.name).split(".")[-1] for e in raised})
    good = [e for e in raised if str(e.name).split(".")[-1] in allowed]
    if r.dead:
        if good:
            rep.ok(name, rule, good[0].where(), "every path raises %s" % ", ".join(names))
        elif not raised:
            rep.undecided(name, rule, where(r), "no exit found")
        elif set(names) <= {"ValueError", "TypeError", "AssertionError", "AttributeError", "KeyError", "Exception", "RuntimeError"}:
            rep.bad(name, rule, raised[0].where(), "raises %s instead of %s" % (", ".join(names), " or ".join(sorted(allowed))))
        else:
            rep.undecided(name, rule, raised[0].where(), "raises %s" % names)
        return
    ch = admitted(r, choices) if choices and not r.I.imprecise else None
    if ch:
        rep.bad(name, rule, where(r), "accepted, e.g. for %s" % ", ".join("%s = %s" % (t.show(k, 3), t.show(v, 2)) for k, v in ch.items()))
        return
    ch = exit_example(r) if not r.I.imprecise else None
    if ch:
        rep.bad(name, rule, where(r), "accepted, e.g. for %s" % ", ".join("%s = %s" % (t.show(k, 3), t.show(v, 2)) for k, v in ch.items()))
        return
    if good:
        # the request may still be refused under a condition the analysis could not decide
        rep.undecided(name, rule, good[0].where(), "refused when %s" % facts_str([g for g, _ in good[0].guard]))
    elif r.I.imprecise:
        rep.undecided(name, rule, where(r), "analysis imprecise")
    else:
        rep.bad(name, rule, where(r), "accepted: returns %s" % t.show(r.returned, 2)[:200])


def exit_example(r):
    """Values of plain inputs (scalars, lengths, sizes) at which the normal exit of the analysed call is taken, or None."""
    return example([g for g, _ in r.st.guard] + list(getattr(r, "assumed", ())))


def example(gs, least=1):
    """Values of plain inputs at which all these conditions hold, or None (also when a condition is not about plain inputs)."""
    atoms, consts = set(), {0, 1, 2, 3}

    def plain(y, boolean):
        if y.op in ("not", "and", "or"):
            return all(plain(z, True) for z in y.args)
        if y.op in ("eq0", "lt0", "le0"):
            return number(y.args[0])
        if y.op == "bool":
            return True
        if boolean and y.op == "sym":
            atoms.add(y)
            return True
        return boolean and number(y)

    def number(y):
        if y.op == "num":
            consts.update((int(abs(y.args[0])), int(abs(y.args[0])) + 1))
            return True
        if y.op == "sym" or y.op == "app" and y.args[0] in ("len", "dim") and (y.args[1].op == "sym" or y.args[1].op == "idx" and y.args[1].args[0].op == "sym" and y.args[1].args[1].op == "num"):
            atoms.add(y)
            return True
        if y.op == "poly":
            consts.update(abs(int(c)) + d for m, c in y.args[0] if m == () for d in (0, 1))
            return all(number(z) for z in t.subterms(y))
        return False

    if not all(plain(g, True) for g in gs) or not 0 < len(atoms) <= 3:
        return None
    for vals in itertools.product(*([[c for c in sorted(consts) if c >= least][:12] if a.op == "app" else sorted(consts)[:8] + [-1, t.q(0.5)] for a in sorted(atoms, key=str)])):
        m = {a: num(v) for a, v in zip(sorted(atoms, key=str), vals)}
        if all(truth(t.subst(g, m)) is True for g in gs):
            return m
    return None


def truth(h):
    if h.op == "bool":
        return h.args[0]
    if h.op == "num":
        return h.args[0] != 0
    if h.op == "not":
        x = truth(h.args[0])
        return None if x is None else not x
    if h.op in ("and", "or"):
        xs = [truth(z) for z in h.args]
        if h.op == "and":
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    return None


def families(x):
    out = set()
    for y in t.walk(x):
        if y.op != "app":
            continue
        f = str(y.args[0])
        if f.startswith("scipy.interpolate."):
            if f.endswith("interp1d"):
                k = [z.args[0] for a in y.args[1:] if isinstance(a, t.Term) for z in t.walk(a) if z.op == "py" and isinstance(z.args[0], str) and z.args[0] in
                     ("linear", "slinear", "quadratic", "cubic", "nearest", "zero", "previous", "next")]
                f += ":" + (k[0] if k else "linear")
            out.add(f)
    return out


def knots(x):
    """(x, y) arguments of every interpolator constructor in x."""
    return [(y.args[1], y.args[2]) for y in t.walk(x) if y.op == "app" and str(y.args[0]).startswith("scipy.interpolate.") and len(y.args) > 2
            and all(isinstance(a, t.Term) for a in y.args[1:3])]


def spline(rep, prog, nm, kind, r):
    rep.covered(r)
    name = "%s spline_kind=%s" % (nm, kind)
    if r.dead:
        rep.bad(name, R_SEL, where(r), "documented value is refused")
        return
    for e in r.I.events:
        if e.kind == "raise":
            ch = example([g for g, _ in e.guard], 3)
            if ch:
                rep.bad(name, R_SEL, e.where(), "documented value is refused, e.g. for %s" % ", ".join("%s = %s" % (t.show(k, 3), t.show(w, 2)) for k, w in ch.items()))
                return
    v = r.value
    x = r.returned
    fam = {f for f in families(x)}
    exp = FAMILY[kind.lower()]
    E = sym("E")
    if not fam:
        rep.undecided(name, R_SEL, where(r), "no interpolator found in %s" % t.show(x, 2)[:200])
        return
    wrong = fam - exp
    if wrong:
        if {w.split(":")[0] for w in wrong} <= KNOWN:
            rep.bad(name, R_SEL, where(r), "built with %s instead of %s" % (sorted(wrong), sorted(exp)))
        else:
            rep.undecided(name, R_SEL, where(r), "unmodelled interpolator %s" % sorted(wrong))
        return
    for a, b in knots(x):
        ea, eb = arr.idx(E, ZERO), arr.idx(E, ONE)
        if a is ea and b is eb:
            continue
        if a is eb or b is ea:
            rep.bad(name, R_SEL, where(r), "interpolates positions and values the wrong way round")
            return
        if not ({y for y in t.walk(a)} & {E}) or not ({y for y in t.walk(b)} & {E}):
            rep.bad(name, R_SEL, where(r), "knots are not the given extrema: %s, %s" % (t.show(a, 3), t.show(b, 3)))
            return
        rep.undecided(name, R_SEL, where(r), "knots %s, %s" % (t.show(a, 3), t.show(b, 3)))
        return
    rep.ok(name, R_SEL, where(r), "uses %s on the given points" % ", ".join(sorted(fam)))


def forwarded(rep, prog, cls, opts):
    nm = cls.split(".")[-1]
    I = Interp(prog)
    st = State(dict(I.state0.heap), {}, ())
    c = get_class(prog, cls)
    o = en.construct(I, st, c, kw={"ext_EMD": V(NONE)})
    inner = st.heap[o.cid].attrs.get("EMD")
    if isinstance(inner, VIte) or not isinstance(inner, ORef):
        rep.undecided(nm + " inner options", R_FWD, c.qual, "inner decomposition object not followed")
    else:
        at = st.heap[inner.cid].attrs or {}
        for k, attr in opts:
            v = at.get(attr)
            name = "%s(%s=...)" % (nm, k)
            if v is None:
                rep.undecided(name, R_FWD, c.qual, "inner object has no attribute %s" % attr)
                continue
            x = I.read(st, v)
            if any(y.op == "app" and y.args[0] == "opt" and y.args[1] is py(k) for y in t.walk(x)) or any(y.op == "havoc" for y in t.walk(x)):
                rep.ok(name, R_FWD, c.qual, "inner %s = %s" % (attr, t.show(x, 3)))
            else:
                rep.bad(name, R_FWD, "%s:%s %s" % (c.module.rel, c.node.lineno, c.qual), "the inner decomposition gets %s = %s whatever is passed" % (attr, t.show(x, 3)))
    # supplied EMD object
    I = Interp(prog)
    st = State(dict(I.state0.heap), {}, ())
    e = en.construct(I, st, get_class(prog, runs.EMD_QUAL))
    o = en.construct(I, st, c, kw={"ext_EMD": e})
    inner = st.heap[o.cid].attrs.get("EMD")
    if isinstance(inner, ORef) and inner.cid == e.cid:
        rep.ok(nm + "(ext_EMD=...)", R_FWD, c.qual, "the supplied object is kept")
    elif isinstance(inner, ORef):
        rep.bad(nm + "(ext_EMD=...)", R_FWD, "%s:%s %s" % (c.module.rel, c.node.lineno, c.qual), "the supplied decomposition object is not the one used")
    else:
        rep.undecided(nm + "(ext_EMD=...)", R_FWD, c.qual, "inner object not followed")


EMD_OPTS = [(k, k) for k in ("spline_kind", "nbsym", "extrema_detection", "FIXE", "FIXE_H", "MAX_ITERATION", "energy_ratio_thr", "std_thr", "svar_thr",
                             "total_power_thr", "range_thr")]


def detector(rep, name, r, kind):
    rep.covered(r)
    x = r.value
    if r.dead:
        rep.bad(name, R_SEL, where(r), "documented value is refused")
        return
    items = r.returned.args if r.returned.op == "tuple" else ()
    if len(items) < 4:
        rep.undecided(name, R_SEL, where(r), "result not followed")
        return

    def leaves(y):
        while y.op == "app" and y.args[0] == "cast":
            y = y.args[-1]
        return leaves(y.args[1]) + leaves(y.args[2]) if y.op == "ite" else [y]
    on = [all(l.op == "idx" and l.args[0] is sym("T") for l in leaves(items[i])) for i in (0, 2)]
    frac = [any(y.op == "poly" and any(e < 0 for m, _ in y.args[0] for _, e in m) for y in t.walk(items[i])) for i in (0, 2)]
    if kind == "simple":
        if all(frac):
            rep.bad(name, R_SEL, where(r), "positions are interpolated between samples: %s" % t.show(items[0], 3)[:200])
        elif not any(frac):
            rep.ok(name, R_SEL, where(r), "positions are %s" % ("sample times" if all(on) else "taken from the samples"))
        else:
            rep.undecided(name, R_SEL, where(r), "positions %s" % t.show(items[0], 3)[:200])
    else:
        if all(frac):
            rep.ok(name, R_SEL, where(r), "positions are vertices of fitted parabolas")
        elif all(on):
            rep.bad(name, R_SEL, where(r), "positions are plain sample times, no parabola is fitted")
        else:
            rep.undecided(name, R_SEL, where(r), "positions %s" % t.show(items[0], 3)[:200])


def check(prog, rep, tier):
    pts = [arrin("T"), arrin("E", 2)]
    six = [arrin("T"), arrin("S"), arrin("max_pos"), arrin("max_val"), arrin("min_pos"), arrin("min_val")]
    J = "PyEMD.experimental.jitemd."
    for k in ("akima", "cubic", "Cubic", "pchip", "cubic_hermite", "slinear", "quadratic", "linear"):
        rep.guard("EMD spline_kind=%s" % k, R_SEL, lambda: spline(rep, prog, "EMD", k, enter(prog, "PyEMD.EMD.EMD.spline_points", args=pts, selfattrs={"spline_kind": V(py(k))})))
    for k in ("akima", "cubic"):
        rep.guard("JitEMD spline_kind=%s" % k, R_SEL, lambda: spline(rep, prog, "JitEMD", k, enter(prog, J + "spline_points", args=pts + [V(py(k))])))
    for bad in UNKNOWN:
        b = V(py(bad))
        for nm, q, a, sa, exc in (
                ("EMD.spline_points spline_kind", "PyEMD.EMD.EMD.spline_points", pts, {"spline_kind": b}, {"ValueError"}),
                ("EMD.find_extrema extrema_detection", "PyEMD.EMD.EMD.find_extrema", [arrin("T"), arrin("S")], {"extrema_detection": b}, {"ValueError"}),
                ("EMD.prepare_points extrema_detection", "PyEMD.EMD.EMD.prepare_points", six, {"extrema_detection": b}, {"ValueError"}),
                ("EEMD.generate_noise noise_kind", "PyEMD.EEMD.EEMD.generate_noise", [scin("scale"), scin("size")], {"noise_kind": b}, {"ValueError"}),
                ("CEEMDAN.generate_noise noise_kind", "PyEMD.CEEMDAN.CEEMDAN.generate_noise", [scin("scale"), scin("size")], {"noise_kind": b}, {"ValueError"}),
                ("jitemd.spline_points spline_kind", J + "spline_points", pts + [b], None, {"ValueError"}),
                ("jitemd.find_extrema extrema_detection", J + "find_extrema", [arrin("T"), arrin("S"), b], None, {"ValueError"}),
        ):
            def go():
                kw = dict(selfattrs=sa) if sa else {}
                if "EEMD" in q or "CEEMDAN" in q:
                    kw["ctor"] = dict(kw={"ext_EMD": V(NONE)})
                refuses(rep, "%s=%r" % (nm, bad), R_REF, enter(prog, q, args=a, **kw), exc)
            rep.guard("%s=%r" % (nm, bad), R_REF, go)

        def ctor():
            I = Interp(prog)
            st = State(dict(I.state0.heap), {}, ())
            f = get_func(prog, runs.EMD_QUAL + ".__init__")
            r = en.Run(I, st, V(NONE), None, {}, f)
            en.construct(I, st, get_class(prog, runs.EMD_QUAL), kw={"extrema_detection": b}, symbolic=False)
            r.dead = getattr(I, "_dead", None) is st
            refuses(rep, "EMD(extrema_detection=%r)" % bad, R_REF, r, {"AssertionError", "ValueError"})
        rep.guard("EMD(extrema_detection=%r)" % bad, R_REF, ctor)
    doc = {"spline_kind": tuple(FAMILY), "extrema_detection": ("simple", "parabol"), "noise_kind": ("normal", "uniform")}
    for nm, q, a, opt, exc in (
            ("EMD.spline_points", "PyEMD.EMD.EMD.spline_points", pts, "spline_kind", {"ValueError"}),
            ("EMD.find_extrema", "PyEMD.EMD.EMD.find_extrema", [arrin("T"), arrin("S")], "extrema_detection", {"ValueError"}),
            ("EMD.prepare_points", "PyEMD.EMD.EMD.prepare_points", six, "extrema_detection", {"ValueError"}),
            ("EEMD.generate_noise", "PyEMD.EEMD.EEMD.generate_noise", [scin("scale"), scin("size")], "noise_kind", {"ValueError"}),
            ("CEEMDAN.generate_noise", "PyEMD.CEEMDAN.CEEMDAN.generate_noise", [scin("scale"), scin("size")], "noise_kind", {"ValueError"}),
            ("jitemd.spline_points", J + "spline_points", pts + [scin("spline_kind")], "spline_kind", {"ValueError"}),
            ("jitemd.find_extrema", J + "find_extrema", [arrin("T"), arrin("S"), scin("extrema_detection")], "extrema_detection", {"ValueError"})):
        def anyval():
            kw = {}
            x = sym(opt) if "jitemd" in q else sym("self." + opt)
            if "jitemd" not in q:
                kw["selfattrs"] = {opt: V(x)}
            if "EEMD" in q or "CEEMDAN" in q:
                kw["ctor"] = dict(kw={"ext_EMD": V(NONE)})
            r = enter(prog, q, args=a, **kw)
            rep.covered(r)
            name = "%s: any other %s" % (nm, opt)
            d = ("cubic", "akima") if nm == "jitemd.spline_points" else doc[opt]
            ws = wordlist(r, doc[opt])
            evs = [e for e in r.I.events if e.kind == "raise" and str(e.name).split(".")[-1] in exc]
            if not evs:
                rep.bad(name, R_REF, where(r), "no value is ever refused")
                return
            ch = admitted(r, [{x: py(w)} for w in ws])
            if ch:
                rep.bad(name, R_REF, where(r), "accepted: %s=%s" % (opt, t.show(list(ch.values())[0], 2)))
            else:
                rep.ok(name, R_REF, evs[0].where(), "no raise-free path for %d strings derived from the tests on it" % len(ws))
        rep.guard("%s: any other %s" % (nm, opt), R_REF, anyval)
    for k in ("simple", "parabol"):
        rep.guard("EMD extrema_detection=%s" % k, R_SEL, lambda: detector(rep, "EMD extrema_detection=%s" % k, enter(
            prog, "PyEMD.EMD.EMD.find_extrema", args=[arrin("T"), arrin("S")], selfattrs={"extrema_detection": V(py(k))}), k))
        rep.guard("JitEMD extrema_detection=%s" % k, R_SEL, lambda: detector(rep, "JitEMD extrema_detection=%s" % k, enter(
            prog, J + "find_extrema", args=[arrin("T"), arrin("S"), V(py(k))]), k))
    for cls in ("PyEMD.EEMD.EEMD", "PyEMD.CEEMDAN.CEEMDAN"):
        rep.guard(cls.split(".")[-1] + " options", R_FWD, lambda: forwarded(rep, prog, cls, EMD_OPTS))
