from .common import *
from .loopstep import Step, mentions
from . import c10

EXPLANATION = ("The sifting loop of each decomposition is read as a transition relation over its round counter, the proto-IMF counter and the "
               "options MAX_ITERATION, FIXE and FIXE_H, all data-dependent conditions free: whether it goes round again must be as documented "
               "for every combination of those conditions.")
R_CAP = "no continue edge after MAX_ITERATION rounds; a larger MAX_ITERATION changes nothing before that"
R_FIXE = "with FIXE=f, rounds before the f-th never stop on a criterion and the f-th always stops"
R_FIXH = "with FIXE_H=h, stops on the criterion only after h consecutive proto-IMF rounds, and then always"
BIG = 10 ** 6
THR = ("svar_thr", "std_thr", "energy_ratio_thr", "mean_thr", "mse_thr")


def optatom(kind, k):
    if kind == "self":
        return sym("self." + k)
    if kind == "config":
        return app("dget", sym("config"), py(k))
    return None


def find_opts(r):
    """The terms that stand for the options in this run."""
    out = {}
    for L in r.I.loops.values():
        for c in [L.get("cond"), L.get("n")] + list(L.get("conts", ())) + list(L.get("breaks", ())):
            if not isinstance(c, t.Term):
                continue
            for y in t.walk(c):
                for k in ("MAX_ITERATION", "FIXE", "FIXE_H"):
                    if isopt(y, k):
                        out[k] = y
    return out


def sifting(r, opts):
    """Innermost loops controlled by the sifting options."""
    ks = []
    comp = {p.args[0] for p, _, _ in c10.rowphi(r)}
    want = set(opts.values())
    for k, L in r.I.loops.items():
        if k in comp:
            continue
        cs = [L.get("cond"), L.get("n")] + list(L.get("conts", ())) + list(L.get("breaks", ())) + \
             [r.I.phis[p].get("back") for p in L.get("phis", ()) if isinstance(L.get("cond"), t.Term) and any(y is p for y in t.walk(L["cond"]))]
        ms = {y for c in cs if isinstance(c, t.Term) for y in t.walk(c)} & want
        if len(ms) >= 2:
            ks.append(k)
    ks = [k for k in ks if not any(o != k and o.startswith(k + "/") for o in ks)]
    if len(ks) > 1:                    # a loop over the result depends on the options too, but only through data
        ks = [k for k in ks if isinstance(r.I.loops[k].get("cond"), t.Term) or r.I.loops[k].get("breaks") or r.I.loops[k].get("n") in want] or ks
    return ks


def stuck(r):
    """A loop whose MAX_ITERATION test compares something that no round of it changes."""
    comp = {p.args[0] for p, _, _ in c10.rowphi(r)}
    for k, L in r.I.loops.items():
        c = L.get("cond")
        if k in comp or not isinstance(c, t.Term) or isinstance(L.get("n"), t.Term) and t.walk(L["n"]) and any(isopt(y, "MAX_ITERATION") for y in t.walk(L["n"])):
            continue
        every = [c] + [x for x in list(L.get("conts", ())) + list(L.get("breaks", ())) if isinstance(x, t.Term)]
        cap = [y for x in every for y in t.walk(x) if y.op in ("lt0", "le0", "eq0", "eq") and any(isopt(z, "MAX_ITERATION") for z in t.walk(y))]
        if cap and all(z.op in ("num", "sym", "py", "poly", "lt0", "le0", "eq0", "eq") or isopt(z, "MAX_ITERATION") or z.op == "app" and z.args[0] == "dget"
                       for y in cap for z in t.walk(y)) and not any(z is L.get("iota") for y in cap for z in t.walk(y)):
            return k, cap[0]
    return None


def isopt(y, k):
    return y.op == "sym" and y.args[0] == "self." + k or \
        (y.op == "app" and y.args[0] == "dget" or y.op == "idx") and y.args[-1].op == "py" and y.args[-1].args[0] == k


def counter(r, L):
    """The phi that counts consecutive proto-IMF rounds: starts at 0, becomes itself, itself + 1 or 0."""
    out = []
    for p in L.get("phis", ()):
        i = r.I.phis[p]
        if i.get("back") is None or i["init"] is not ZERO:
            continue
        ls = leaves(i["back"])
        if t.add(p, ONE) in ls and ls <= {p, t.add(p, ONE), ZERO} and ZERO in ls:
            out.append(p)
    return out


def miscounter(r, L, H):
    """A counter compared with FIXE_H that is never reset, or never advances."""
    every = [L.get("cond")] + list(L.get("conts", ())) + list(L.get("breaks", ()))
    cmp = [set(t.walk(y)) for c in every if isinstance(c, t.Term) for y in t.walk(c) if y.op in ("lt0", "le0") and any(z is H for z in t.walk(y))]
    for p in L.get("phis", ()):
        i = r.I.phis[p]
        if i.get("back") is None or i["init"] is not ZERO:
            continue
        ls = leaves(i["back"])
        if not all(t.sub(l, p).op == "num" or l.op == "num" or all(z is p or z.op in ("num", "poly", "app") for z in t.walk(l)) for l in ls) or not any(p in c for c in cmp):
            continue
        if ZERO not in ls:
            return "the count of proto-IMF rounds is never reset"
        if t.add(p, ONE) not in ls:
            return "the count of proto-IMF rounds never advances by one"
    return None


def leaves(x):
    return leaves(x.args[1]) | leaves(x.args[2]) if x.op == "ite" else {x}


def one(prog, rep, name, mk_run, off=0):
    r = mk_run()
    rep.covered(r)
    opts = find_opts(r)
    ks = sifting(r, opts)
    b = stuck(r)
    if b is not None:
        rep.bad(name + " cap", R_CAP, "%s (loop %s)" % (where(r), b[0]), "the test %s comes out the same in every round" % t.show(b[1], 3)[:120])
        return
    if len(opts) < 3 or len(ks) != 1:
        rep.undecided(name, R_CAP, where(r), "%d sifting loops, options %s" % (len(ks), sorted(opts)))
        return
    key = ks[0]
    wh = "%s (loop %s)" % (where(r), key)
    M, F, H = opts["MAX_ITERATION"], opts["FIXE"], opts["FIXE_H"]
    nh = counter(r, r.I.loops[key])
    s = Step(r, key, [M, F, H] + nh)
    io = s.io
    base = lambda i, m=BIG, f=0, h=0, c=0: dict({io: i, M: m, F: f, H: h}, **{p: c for p in nh}) if False else {**{io: i, M: m, F: f, H: h}, **{p: c for p in nh}}    # noqa: E731
    # cap
    try:
        ok = True
        for f, h in ((0, 0), (BIG, 0), (0, BIG)):
            for m in (1, 2, 5, 30):
                for i in range(0, m + 2):
                    (go, stop), (rgo, rstop) = s.outcomes(base(i, m, f, h), base(i, BIG * 2, f, h))
                    if i >= m and go:
                        rep.bad(name + " cap", R_CAP, wh, "MAX_ITERATION=%d: sifts on after %d rounds when %s" % (m, i + 1, s.example(go)))
                        ok = False
                        break
                    if i + 2 < m and (go & rstop or stop & rgo):
                        rep.bad(name + " cap", R_CAP, wh, "MAX_ITERATION=%d already takes effect in round %d" % (m, i + 1))
                        ok = False
                        break
                    if not go:
                        break
                if not ok:
                    break
            if not ok:
                break
        late = None
        if ok:
            envs = {}
            for e in r.I.events:
                if e.kind == "call" and str(e.name).startswith("scipy.interpolate."):
                    gs = [g for g, _ in e.guard]
                    if any(mentions(g, {io, M}) for g in gs) or s.head is not TRUE:
                        envs[tuple(gs)] = e
            for m in (1, 2, 5, 30):
                for f, h in ((0, 0), (BIG, 0), (0, BIG)):
                    for gs, e in envs.items():
                        if late is None and s.reached(base(m, m, f, h), gs):
                            late = e, m
        if late:
            rep.bad(name + " cap", R_CAP, late[0].where(), "MAX_ITERATION=%d: envelopes are built in round %d" % (late[1], late[1] + 1))
        elif ok:
            rep.ok(name + " cap", R_CAP, wh, "every assignment of the data-dependent conditions stops")
    except Unknown as e:
        rep.undecided(name + " cap", R_CAP, wh, str(e))
    # FIXE
    try:
        rep_fixe(rep, name + " FIXE", s, base, wh, off)
    except Unknown as e:
        rep.undecided(name + " FIXE", R_FIXE, wh, str(e))
    try:
        lazy = nh or miscounter(r, r.I.loops[key], H)
        if not nh and lazy:
            rep.bad(name + " FIXE_H", R_FIXH, wh, lazy)
        elif len(nh) != 1:
            rep.undecided(name + " FIXE_H", R_FIXH, wh, "%d proto-IMF counters" % len(nh))
        else:
            rep_fixh(rep, name + " FIXE_H", s, base, wh, r, nh[0])
    except Unknown as e:
        rep.undecided(name + " FIXE_H", R_FIXH, wh, str(e))


def rep_fixe(rep, name, s, base, wh, off=0):
    for f in (1, 2, 3, 10):
        for i in range(f + off):
            (go, stop), (rgo, rstop) = s.outcomes(base(i, f=f), base(i, f=BIG // 2))
            if i + 1 == f + off:
                if go:
                    rep.bad(name, R_FIXE, wh, "FIXE=%d: goes on after round %d when %s" % (f, f + off, s.example(go)))
                    return
            elif go & rstop or stop & rgo or not go:
                rep.bad(name, R_FIXE, wh, "FIXE=%d: stops in round %d%s" % (f, i + 1, " when " + s.example(stop & rgo) if stop & rgo else ""))
                return
    for i in (1, 5):
        (go, stop), (rgo, rstop) = s.outcomes(base(i, f=BIG // 2), base(i, h=BIG // 2))
        if stop & rgo or go & rstop:
            rep.bad(name, R_FIXE, wh, "with FIXE set, sifting ends for another reason than running out of extrema: %s" % s.example(stop & rgo or go & rstop))
            return
    # criteria of the adaptive stop must not matter
    for i in (0, 1, 5):
        (go, stop), = s.outcomes(base(i, f=BIG // 2))
        for k, l in enumerate(s.names):
            if any(y.op in ("sym", "py") and isinstance(y.args[0], str) and y.args[0].split(".")[-1] in THR for y in t.walk(l)):
                w = 1 << k
                full = (1 << (1 << len(s.names))) - 1
                hi = 0
                blk = ((1 << w) - 1) << w
                size = 2 * w
                v = blk
                while size < (1 << len(s.names)):
                    v |= v << size
                    size *= 2
                hi = v
                lo = full ^ hi
                if (go & hi) >> w & stop or (stop & hi) >> w & go:
                    rep.bad(name, R_FIXE, wh, "with FIXE set, the stop still depends on %s" % t.show(l, 3)[:160])
                    return
    rep.ok(name, R_FIXE, wh, "stops in round FIXE, earlier only when a component cannot be sifted further")


def rep_fixh(rep, name, s, base, wh, r, p):
    back = r.I.phis[p]["back"]
    for h in (1, 2, 10):
        # the first round does not count
        (go, stop, vals), (rgo, rstop, rvals) = s.outcomes(base(0, h=h, c=0), base(0, h=BIG // 2, c=0), extra=[back])
        if stop & rgo:
            rep.bad(name, R_FIXH, wh, "FIXE_H=%d: stops in the first round when %s" % (h, s.example(stop & rgo)))
            return
        for n, bits in vals[0].items():
            if bits & go and n not in (0, None):
                rep.bad(name, R_FIXH, wh, "FIXE_H=%d: the first round is counted when %s" % (h, s.example(bits & go)))
                return
    for h in (1, 2, 3, 10):
        for c in range(h):
            i = c + 4
            (go, stop, vals), (rgo, rstop, rvals) = s.outcomes(base(i, h=h, c=c), base(i, h=BIG // 2, c=c), extra=[back])
            early = stop & rgo
            rv = rvals[0]
            full, reset = rv.get(c + 1, 0) & rgo, rv.get(0, 0) & rgo
            if c + 1 == h and None not in rv:
                if go & full:
                    rep.bad(name, R_FIXH, wh, "FIXE_H=%d: goes on after %d consecutive proto-IMF rounds when %s" % (h, h, s.example(go & full)))
                    return
                if early & reset & ~full:
                    rep.bad(name, R_FIXH, wh, "FIXE_H=%d: stops after a round that is no proto-IMF when %s" % (h, s.example(early & reset & ~full)))
                    return
            if c + 1 < h and early:
                rep.bad(name, R_FIXH, wh, "FIXE_H=%d: stops after %d proto-IMF rounds when %s" % (h, c + 1, s.example(early)))
                return
            v = vals[0]
            if None in v and v[None] & go:
                rep.undecided(name, R_FIXH, wh, "counter value not followed")
                return
            for n, bits in v.items():
                if bits & go and n is not None and n >= h:
                    rep.bad(name, R_FIXH, wh, "FIXE_H=%d: goes on after %s proto-IMF rounds" % (h, n))
                    return
                if bits & go and n not in (0, c + 1):
                    rep.bad(name, R_FIXH, wh, "a round with %d proto-IMF rounds before it leaves %s counted" % (c, n))
                    return
            if c + 1 == h and not early:
                rep.bad(name, R_FIXH, wh, "FIXE_H=%d never stops" % h)
                return
    rep.ok(name, R_FIXH, wh, "stops exactly when FIXE_H consecutive proto-IMF rounds are complete")


def check(prog, rep, tier):
    for T in ("none", "arr"):
        rep.guard("EMD T=%s" % T, R_CAP, lambda: one(prog, rep, "EMD T=%s" % T, lambda: runs.emd(prog, T=T)))
    rep.guard("EMD2D", R_CAP, lambda: one(prog, rep, "EMD2D", lambda: runs.emd2d(prog)))
    rep.guard("BEMD", R_CAP, lambda: one(prog, rep, "BEMD", lambda: runs.bemd(prog)))
    rep.guard("numba EMD function", R_CAP, lambda: one(prog, rep, "numba EMD function", lambda: runs.jitfun(prog)))
    rep.guard("numba EMD class", R_CAP, lambda: one(prog, rep, "numba EMD class", lambda: runs.jitemd(prog)))
    # the MATLAB-style loop subtracts the mean envelope at the start of the following round: f subtractions are complete in round f + 1
    rep.guard("EMD_matlab", R_CAP, lambda: one(prog, rep, "EMD_matlab", lambda: runs.matlab(prog), off=1))
