from .common import *
from .opq import opaque, merge
from .loopstep import nextcond, Step
from .equiv import form
from .points import confirmed
from . import c09

EXPLANATION = ("The decomposition is analysed with its public helpers (extrema, envelopes, IMF criterion, end condition) opaque; the sifting loop's "
               "state must follow the documented recurrence (start: signal minus the components so far; step: minus the mean of the two envelopes "
               "of the current proto-IMF) and its exit condition must be the documented one, as a truth table over those helpers' results.")
R_INIT = "sifting of a component starts from the signal minus the sum of all components so far"
R_STEP = "each round: proto-IMF := proto-IMF - (upper + lower envelope)/2, envelopes of the current proto-IMF on the analysed time axis"
R_STOP = "without FIXE/FIXE_H a round is the last exactly when the criterion holds for the new proto-IMF (1-D: and |extrema - zero crossings| < 2), or too few extrema remain"
R_NH = "the FIXE_H count grows exactly in rounds whose new proto-IMF meets the IMF condition"
R_ROW = "the component appended is the sifted proto-IMF"
R_END = "the decomposition ends when the end condition holds for the analysed signal and all components so far"
BIG = 10 ** 6


def kinds(prog):
    E = "PyEMD.EMD.EMD."
    oe = merge(opaque(prog, E + "find_extrema", "FE", 5), opaque(prog, E + "extract_max_min_spline", "ENV", 4), opaque(prog, E + "check_imf", "CHK", "bool"),
               opaque(prog, E + "end_condition", "END", "bool"))
    J = "PyEMD.experimental.jitemd."
    oj = merge(opaque(prog, J + "find_extrema", "FE", 5), opaque(prog, J + "extract_max_min_extrema", "EXT", 2, 2), opaque(prog, J + "spline_points", "SP", 2),
               opaque(prog, J + "check_imf", "CHK", "bool"), opaque(prog, J + "end_condition", "END", "bool"))
    D = "PyEMD.EMD2d.EMD2D."
    od = merge(opaque(prog, D + "find_extrema", "FE", (2, 2)), opaque(prog, D + "extract_max_min_spline", "ENV", 2, 2), opaque(prog, D + "check_proto_imf", "CHK", "bool"),
               opaque(prog, D + "end_condition", "END", "bool"))
    B = "PyEMD.BEMD.BEMD."
    ob = merge(opaque(prog, B + "find_extrema_positions", "FE", (2, 2)), opaque(prog, B + "extract_max_min_spline", "ENV", 2, 2),
               opaque(prog, B + "check_proto_imf", "CHK", "bool"), opaque(prog, B + "end_condition", "END", "bool"))
    im = [arrin("image", 2), scin("max_imf")]
    yield "EMD T=none", 1, lambda: runs.emd(prog, T="none", opaque=oe)
    yield "EMD T=arr", 1, lambda: runs.emd(prog, T="arr", opaque=oe)
    yield "numba EMD", "jit", lambda: enter(prog, J + "emd", args=[arrin("S"), arrin("T"), scin("max_imf"), scin("spline_kind"), scin("extrema_detection")],
                                            kw={"config": runs.config_dict}, opaque=oj)
    yield "EMD2D", 2, lambda: enter(prog, D + "emd", args=im, opaque=od)
    yield "BEMD", 2, lambda: enter(prog, B + "bemd", args=im, opaque=ob)


def strip(x):
    while x.op == "app" and x.args[0] == "cast":
        x = x.args[-1]
    return x


def leaves(x):
    return leaves(x.args[1]) | leaves(x.args[2]) if x.op == "ite" else {x}


def rowsum(x):
    """(signal, matrix) when x = signal - sum of the rows of a matrix."""
    x = strip(x)
    if x.op != "poly":
        return None
    ms = [(m, c) for m, c in x.args[0] if len(m) == 1 and m[0][0].op == "sumrows" and m[0][1] == 1]
    if len(ms) != 1 or ms[0][1] != -1:
        return None
    return t.add(x, ms[0][0][0][0]), ms[0][0][0][0].args[0]


def protos(r, key):
    out = []
    for p in r.I.loops[key].get("phis", ()):
        i = r.I.phis[p]
        if i.get("back") is not None and rowsum(i["init"]) is not None and any(y.op == "app" and str(y.args[0]).startswith(("ENV.", "SP.")) for y in t.walk(i["back"])):
            out.append(p)
    return out


def halves(p, new):
    """The two terms whose mean was subtracted."""
    d = t.sub(p, new)
    if d.op != "poly":
        return None
    q = [(m, c) for m, c in d.args[0]]
    if len(q) == 2 and all(len(m) == 1 and m[0][1] == 1 and c * 2 == 1 for m, c in q):
        return sorted((m[0][0] for m, c in q), key=lambda z: str(z.args[0]) + str(z.args[2:3]))
    return None


def one(prog, rep, name, kind, mk_run):
    r = mk_run()
    rep.covered(r)
    opts = c09.find_opts(r)
    ks = c09.sifting(r, opts)
    if len(opts) < 3 or len(ks) != 1:
        rep.undecided(name, R_STEP, where(r), "%d sifting loops" % len(ks))
        return
    key = ks[0]
    wh = "%s (loop %s)" % (where(r), key)
    ps = protos(r, key)
    if not ps:
        for q in r.I.loops[key].get("phis", ()):
            i = r.I.phis[q]
            if i.get("back") is None or i["init"].op != "ite" or not any(y.op == "app" and str(y.args[0]).startswith(("ENV.", "SP.")) for y in t.walk(i["back"])):
                continue
            bs = [rowsum(b) for b in i["init"].args[1:]]
            if all(bs) and bs[0][1] is bs[1][1] and any(b[0].op in ("sym", "idx") for b in bs) and bs[0][0] is not bs[1][0]:
                b = next(b for b in bs if b[0].op not in ("sym", "idx")) if any(b[0].op not in ("sym", "idx") for b in bs) else bs[1]
                rep.bad(name, R_STEP, wh, "under a condition a component is sifted from %s minus the components so far" % t.show(b[0], 3)[:100])
                return
    if len(ps) != 1:
        rep.undecided(name, R_STEP, wh, "%d proto-IMF variables" % len(ps))
        return
    p = ps[0]
    start(rep, name, r, kind, p, wh)
    env = {opts["FIXE"]: ZERO, opts["FIXE_H"]: ZERO, opts["MAX_ITERATION"]: num(BIG)}
    new = step(rep, name, r, key, kind, p, wh, opts)
    if new is None:
        return
    stop(rep, name, r, key, kind, p, new, wh, opts)
    growth(rep, name, r, key, kind, p, new, wh, opts)
    outer(rep, name, r, key, kind, p, wh)


def matrix(m, r):
    """A loop-carried list of components, all rows of it."""
    return m.op == "phi"


def left_out(m):
    """components a slice of the list of components does not reach"""
    if m.op != "idx" or m.args[0].op != "phi" or m.args[1].op != "slice":
        return None
    n = arr.nrows(m.args[0])
    io = [y for y in t.walk(n) if y.op == "iota"] if n is not None else []
    if len(io) != 1:
        return None
    for k in range(0, 70):
        env = {io[0]: num(k)}
        q = [t.subst(x, env) for x in (n,) + tuple(m.args[1].args)]
        if any(x is not NONE and x.op != "num" for x in q):
            return None
        rows, lo, hi, st = [None if x is NONE else int(x.args[0]) for x in q]
        if rows >= 0 and st != 0 and len(range(rows)[lo:hi:st]) != rows:
            return "with %d components extracted before, only %d are subtracted" % (rows, len(range(rows)[lo:hi:st]))
    return None


def start(rep, name, r, kind, p, wh):
    sig, m = rowsum(r.I.phis[p]["init"])
    want = sym("image") if kind == 2 else sym("S")
    if name == "EMD2D":
        lo, hi = app("np.min", want), app("np.max", want)
        want = t.div(t.sub(want, lo), t.sub(hi, lo))
        sig = spread(sig, t.sub(hi, lo))
    if matrix(m, r) and strip(sig) is want:
        rep.ok(name + " start", R_INIT, wh, t.show(sig, 3)[:120])
    elif left_out(m):
        rep.bad(name + " start", R_INIT, wh, left_out(m))
    elif unknown_atoms(sig) or unknown_atoms(m) or not matrix(m, r):
        rep.undecided(name + " start", R_INIT, wh, "%s minus the rows of %s" % (t.show(sig, 3)[:120], t.show(m, 3)[:120]))
    else:
        rep.bad(name + " start", R_INIT, wh, "starts from %s" % t.show(sig, 4)[:200])


def step(rep, name, r, key, kind, p, wh, opts):
    # the state after a round that continues; a round that stops on too few extrema may leave it as it was
    s = Step(r, key, [])
    back = r.I.phis[p]["back"]
    got = {strip(x) for x in leaves(back)}
    full = [x for x in got if x is not p]
    if not full:
        rep.bad(name + " step", R_STEP, wh, "the proto-IMF is never changed")
        return None
    for x in full:
        h = halves(p, x)
        if h is None:
            if unknown_atoms(x):
                rep.undecided(name + " step", R_STEP, wh, "new proto-IMF %s" % t.show(x, 4)[:200])
            else:
                rep.bad(name + " step", R_STEP, wh, "subtracts %s" % t.show(t.sub(p, x), 4)[:240])
            return None
        msg = envelopes(kind, p, h)
        if msg:
            (rep.undecided if msg.startswith("?") else rep.bad)(name + " step", R_STEP, wh, msg)
            return None
    if len(full) != 1:
        rep.undecided(name + " step", R_STEP, wh, "%d different rounds" % len(full))
        return None
    if p in got:        # rounds that change nothing must be last
        keep = t.FALSE if hasattr(t, "FALSE") else FALSE
        cond = unchanged(back, p)
        go = t.and_(t.or_(*r.I.loops[key].get("conts", ())) if r.I.loops[key].get("conts") else TRUE, nextcond(r, r.I.loops[key]))
        v = t.and_(cond, go)
        f = form(v)
        from .loopstep import lits, table, columns
        ls = {}
        lits(f, ls)
        if len(ls) <= 16:
            tab, fl = columns(list(ls))
            if table(f, tab, fl):
                rep.undecided(name + " step", R_STEP, wh, "a round may go on without sifting when %s" % t.show(cond, 4)[:160])
                return full[0]
    rep.ok(name + " step", R_STEP, wh, "mean of %s" % " and ".join(str(z.args[0]) for z in halves(p, full[0])))
    return full[0]


def unchanged(x, p):
    if x.op == "ite":
        return t.or_(t.and_(x.args[0], unchanged(x.args[1], p)), t.and_(t.not_(x.args[0]), unchanged(x.args[2], p)))
    return TRUE if strip(x) is p else FALSE


def envelopes(kind, p, h):
    names = [str(z.args[0]) if z.op == "app" else "" for z in h]
    if kind == "jit":
        if names != ["SP.1", "SP.1"]:
            return "?means of %s" % names
        ex = [z.args[2] for z in h]
        if sorted(str(e.args[0]) if e.op == "app" else "" for e in ex) != ["EXT.0", "EXT.1"]:
            return "the envelopes run through %s" % [t.show(e, 2) for e in ex]
        for z in h:
            if z.args[1] is not sym("T") or z.args[3] is not sym("spline_kind"):
                return "an envelope is drawn on %s with kind %s" % (t.show(z.args[1], 3), t.show(z.args[3], 3))
        for e in ex:
            if e.args[1] is not sym("T") or e.args[2] is not p or e.args[4] is not sym("extrema_detection"):
                return "extrema of %s on %s, detection %s" % (t.show(e.args[2], 3), t.show(e.args[1], 3), t.show(e.args[4], 2))
        return None
    if names != ["ENV.0", "ENV.1"]:
        return "?means of %s" % names if any(not n.startswith("ENV") for n in names) else "subtracts the mean of %s" % names
    for z in h:
        i = 2 if kind == 1 else 1
        if z.args[i] is not p:
            return "an envelope is that of %s, not of the current proto-IMF" % t.show(z.args[i], 4)[:160]
    if h[0].args[1:] != h[1].args[1:]:
        return "the two envelopes are computed from different inputs"
    if kind == 2 and len(h[0].args) > 2:
        mn, mx = h[0].args[2], h[0].args[3]
        for q, w in ((mn, "FE.0"), (mx, "FE.1")):
            for y in t.walk(q):
                if y.op == "app" and str(y.args[0]).startswith("FE.") and (not str(y.args[0]).startswith(w) or y.args[1] is not p):
                    return "envelopes use the extrema %s" % t.show(y, 3)
    return None


def stopterm(r, key):
    L = r.I.loops[key]
    st = list(L.get("breaks", ())) + list(L.get("rets", ()))
    cs = L.get("conts", ())
    nx = nextcond(r, L)
    if cs and nx is not TRUE:
        st.append(t.and_(t.or_(*cs), t.not_(nx)))
    return t.or_(*st) if st else FALSE


def settle(x, r, key):
    """The loop's own guard holds when a round starts; a computed array is not the nan object."""
    m = {}
    for y in t.walk(x):
        if y.op == "is" and any(z.op == "app" and z.args[0] == "nan" for z in y.args):
            m[y] = FALSE
    L = r.I.loops[key]
    c = L.get("cond")
    if c is not None and L.get("n") is None:
        for y in (c.args if c.op == "and" else (c,)):
            if y.op == "not":
                m[y.args[0]] = FALSE
            elif y.op == "phi":
                m[y] = TRUE
    return t.subst(x, m) if m else x


def count(n):
    return app("len", n)


def near(kind, p, fe, x):
    """|number of extrema - number of zero crossings| of x, as used by the code's own find_extrema calls."""
    a = fe.args[1:]
    w = lambda i: app("len", mk("app", "FE.%d" % i, *[x if z is p else z for z in a]))     # noqa: E731
    d = t.sub(t.add(w(0), w(2)), w(4))
    return [t.lt0(t.sub(app("np.abs", e), num(2))) for e in (d, t.neg(d))]


def alternatives(want, options, got):
    """Pick the spelling of a leaf the code uses."""
    sub = set(t.walk(got))
    for o in options:
        if o in sub:
            return o
    return options[0]


def criterion(kind, p, new, got, thr=None):
    """Terms of the documented stop: (criterion atom or None, near atom or None)."""
    chk = [y for y in t.walk(got) if y.op == "app" and y.args[0] == "CHK"]
    return chk


def stop(rep, name, r, key, kind, p, new, wh, opts):
    L = r.I.loops[key]
    env = {opts["FIXE"]: ZERO, opts["FIXE_H"]: ZERO, opts["MAX_ITERATION"]: num(BIG), L["iota"]: num(7)}
    got = t.subst(settle(stopterm(r, key), r, key), env)
    chk = {y for y in t.walk(got) if y.op == "app" and y.args[0] == "CHK"}
    fes = [y for y in t.walk(got) if y.op == "app" and str(y.args[0]).startswith("FE.") and p in y.args]
    if not chk or not fes:
        rep.bad(name + " stop", R_STOP, wh, "the stop does not depend on the IMF criterion" if not chk else "the stop does not depend on the number of extrema") \
            if not unknown_atoms(got) else rep.undecided(name + " stop", R_STOP, wh, "stop %s" % t.show(got, 3)[:200])
        return
    h = halves(p, new)
    if kind == 2:
        want_args = (new, p, t.mul(num(Half), t.add(h[0], h[1])))
    elif kind == 1:
        a = h[0].args[1:]
        want_args = (new, p, mk("app", "ENV.2", *a), mk("app", "ENV.3", *a))
    else:
        ex = sorted((z.args[2] for z in h), key=lambda e: e.args[0])
        want_args = (new, p, ex[0], ex[1]) + tuple(app("dget", sym("config"), py(k)) for k in ("svar_thr", "std_thr", "energy_ratio_thr"))
    for c in chk:
        if c.args[1:] != want_args:
            i = [a is b for a, b in zip(c.args[1:], want_args)]
            j = i.index(False) if False in i else 0
            if unknown_atoms(c):
                rep.undecided(name + " stop", R_STOP, wh, "criterion evaluated on %s" % t.show(c, 3)[:200])
            else:
                rep.bad(name + " stop", R_STOP, wh, "argument %d of the criterion is %s, not %s" % (j + 1, t.show(c.args[1 + j], 4)[:120], t.show(want_args[j], 4)[:120]))
            return
    C = mk("app", "CHK", *want_args)
    if kind == 2:
        cnt = lambda i: app("len", mk("app", "FE.%d.0" % i, *fes[0].args[1:]))        # noqa: E731
        k = num(4 if name == "EMD2D" else 1)
        few = t.or_(t.not_(t.lt0(t.sub(k, cnt(0)))), t.not_(t.lt0(t.sub(k, cnt(1)))))
        want = t.or_(few, C)
    else:
        a = fes[0].args[1:]
        ln = lambda i: app("len", mk("app", "FE.%d" % i, *a))     # noqa: E731
        few = t.not_(t.lt0(t.sub(num(2), t.add(ln(0), ln(2)))))
        nr = alternatives(None, near(kind, p, fes[0], new), got)
        want = t.or_(few, t.and_(C, nr))
    v, why = confirmed(got, want)
    if v == "equal":
        rep.ok(name + " stop", R_STOP, wh, t.show(want, 3)[:200])
    elif v == "different":
        rep.bad(name + " stop", R_STOP, wh, why)
    else:
        rep.undecided(name + " stop", R_STOP, wh, why)


from fractions import Fraction
Half = Fraction(1, 2)


def growth(rep, name, r, key, kind, p, new, wh, opts):
    L = r.I.loops[key]
    nh = c09.counter(r, L)
    if len(nh) != 1:
        rep.undecided(name + " count", R_NH, wh, "%d counters" % len(nh))
        return
    back = r.I.phis[nh[0]]["back"]
    env = {opts["FIXE"]: ZERO, opts["FIXE_H"]: num(BIG), opts["MAX_ITERATION"]: num(2 * BIG), L["iota"]: num(7), nh[0]: num(3)}
    x = t.subst(settle(back, r, key), env)
    grows = t.subst(x, {})
    cond = isvalue(x, num(4))
    fes = [y for y in t.walk(x) if y.op == "app" and str(y.args[0]).startswith("FE.")]
    if kind == 2:
        chk = [y for y in t.walk(cond) if y.op == "app" and y.args[0] == "CHK"]
        h = halves(p, new)
        want = mk("app", "CHK", new, p, t.mul(num(Half), t.add(h[0], h[1])))
    else:
        if not fes:
            rep.undecided(name + " count", R_NH, wh, "count %s" % t.show(x, 3)[:160])
            return
        a = [z for z in fes if new in z.args] or fes
        sub = tuple(p if z is new else z for z in a[0].args[1:])
        want = alternatives(None, near(kind, p, mk("app", "FE.0", *sub), new), cond)
    # only rounds that go on matter: those have enough extrema
    go = [y for y in t.walk(cond)]
    cond = enough(cond, p)
    v, why = confirmed(cond, want)
    if v == "equal":
        rep.ok(name + " count", R_NH, wh, t.show(want, 3)[:200])
    elif v == "different":
        rep.bad(name + " count", R_NH, wh, why)
    else:
        rep.undecided(name + " count", R_NH, wh, why)


def enough(x, p):
    """Comparisons of extrema counts of the old proto-IMF hold in a round that sifts."""
    m = {}
    for y in t.walk(x):
        if y.op in ("lt0", "le0") and any(z.op == "app" and str(z.args[0]).startswith("FE.") and p in z.args for z in t.walk(y)):
            pol = y.args[0]
            k = sum(c for mm, c in pol.args[0] if mm) if pol.op == "poly" else 1
            m[y] = TRUE if k < 0 else FALSE
    return t.subst(x, m) if m else x


def isvalue(x, v):
    if x.op == "ite":
        return t.or_(t.and_(x.args[0], isvalue(x.args[1], v)), t.and_(t.not_(x.args[0]), isvalue(x.args[2], v)))
    return TRUE if x is v else FALSE


def outer(rep, name, r, key, kind, p, wh):
    okey = key.rsplit("/", 1)[0]
    L = r.I.loops.get(okey)
    sig, m = rowsum(r.I.phis[p]["init"])
    if L is None or m.op != "phi" or m.args[0] != okey:
        rep.undecided(name + " end", R_END, wh, "component loop not recognised")
        return
    wo = "%s (loop %s)" % (where(r), okey)
    back = r.I.phis[m].get("back")
    if back is None or back.op != "stack" or len(back.args) != 2 or back.args[0] != ("mat", m) or back.args[1][0] != "row":
        rep.undecided(name + " component", R_ROW, wo, "components become %s" % (t.show(back, 3)[:160] if back is not None else "?"))
        return
    row = strip(back.args[1][1])
    inside = {y for y in leaves(row)}
    new = {strip(x) for x in leaves(r.I.phis[p]["back"])} | {p}
    if {strip(x) for x in inside} <= new:
        rep.ok(name + " component", R_ROW, wo, "the proto-IMF the sifting loop ends with")
    elif unknown_atoms(row):
        rep.undecided(name + " component", R_ROW, wo, t.show(row, 3)[:160])
    else:
        rep.bad(name + " component", R_ROW, wo, "appends %s" % t.show(row, 4)[:200])
    # end condition
    st = stopterm(r, okey)
    ends = {y for y in t.walk(st) if y.op == "app" and y.args[0] == "END"}
    M = sym("max_imf")
    if len(ends) != 1:
        (rep.undecided if unknown_atoms(st) or ends else rep.bad)(name + " end", R_END, wo, "%d end conditions in the stop of the component loop" % len(ends))
        return
    e = ends.pop()
    if strip(e.args[1]) is not strip(sig) or e.args[2] is not back:
        (rep.undecided if unknown_atoms(e) else rep.bad)(name + " end", R_END, wo, "end condition evaluated on %s and %s, not on %s and all components" % (
            t.show(e.args[1], 3)[:100], t.show(e.args[2], 2)[:100], t.show(strip(sig), 3)[:100]))
        return
    s = Step(r, okey, [M, e])
    left = leftover(r, okey)
    if left:
        s.conts = [t.subst(x, left) for x in s.conts]
        s.stops = [t.subst(x, left) for x in s.stops]
    try:
        for i in (0, 3):
            (go, _), = s.outcomes({M: -1, e: True, s.io: i})
            if go:
                rep.bad(name + " end", R_END, wo, "goes on although the end condition holds when %s" % s.example(go))
                return
    except Unknown as x:
        rep.undecided(name + " end", R_END, wo, str(x))
        return
    rep.ok(name + " end", R_END, wo, "stops whenever the end condition holds")


def leftover(r, okey):
    """Conditions of inner loops without break are false once they are left."""
    m = {}
    for k, L in r.I.loops.items():
        if k.startswith(okey + "/") and not L.get("breaks") and not L.get("rets") and isinstance(L.get("cond"), t.Term) and L.get("n") is None:
            m[L["cond"]] = FALSE
    return m


def check(prog, rep, tier):
    for name, kind, mk_run in kinds(prog):
        rep.guard(name, R_STEP, lambda name=name, kind=kind, mk_run=mk_run: one(prog, rep, name, kind, mk_run))
