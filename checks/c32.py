from .common import *
from . import c07
from sa import deps

EXPLANATION = ("Value numbering of every signal handed to the inner decomposition of an ensemble method: the difference between it and the signal "
               "(or the current remainder) must be the polynomial documented for the noise kind and the options - amplitude, offset, sign, which "
               "noise component - and each trial must be given the caller's time axis and limit, once per trial.")
R_GEN = "generate_noise returns the documented distribution with the requested scale and shape"
R_AMP = "signal handed to a trial = signal + documented multiple of that trial's noise"
R_ARG = "each trial is decomposed with the caller's time axis and limit, `trials` times"

W, EPS, NS = sym("self.noise_width"), sym("self.epsilon"), sym("self.noise_scale")


def absfree(x):
    """Drop abs() around max - min of the same array (never negative)."""
    def go(y):
        if y.op == "app" and y.args[0] == "np.abs":
            a = y.args[1]
            for s in (a, t.neg(a)):
                p = t.as_poly(s)
                if len(p) == 2 and all(len(m) == 1 and m[0][1] == 1 and abs(c) == 1 for m, c in p.items()):
                    at = {(m[0][0].args[0] if m[0][0].op == "app" else ""): (c, m[0][0].args[1]) for m, c in p.items()}
                    if set(at) == {"np.max", "np.min"} and at["np.max"][0] == 1 and at["np.min"][0] == -1 and at["np.max"][1] is at["np.min"][1]:
                        return s
        return t.rebuild(y, go)
    return go(x)


def same(a, b):
    a, b = absfree(a), absfree(b)
    return a is b or t.is_zero(t.sub(a, b))


def ptp(S):
    return t.sub(app("np.max", S), app("np.min", S))


def judge(rep, name, rule, wh, got, want, what):
    if same(got, want):
        rep.ok(name, rule, wh, "%s = %s" % (what, t.show(want, 4)[:200]))
        return True
    u = unknown_atoms(t.sub(got, want))
    if u:
        rep.undecided(name, rule, wh, "%s contains %s" % (what, t.show(list(u)[0], 3)))
    else:
        rep.bad(name, rule, wh, "%s is %s, documented %s" % (what, t.show(absfree(got), 5)[:300], t.show(absfree(want), 5)[:300]))
    return False


def noise_atoms(x):
    """The draw (or one row of it) entering x."""
    out = []
    seen = set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == "idx" and y.args[0].op == "app" and str(y.args[0].args[0]).startswith("draw."):
            out.append(y)
            return
        if y.op == "app" and str(y.args[0]).startswith("draw."):
            out.append(y)
            return
        for z in t.subterms(y):
            go(z)
    go(x)
    return out


def doc_noise(kind, scale, d):
    if kind == "normal":
        return t.mul(scale, d)
    return t.sub(t.mul(scale, d), t.mul(num(t.q(0.5)), scale))


def drawname(d):
    return (d.args[0] if d.op == "idx" else d).args[0]


def gen(prog, rep, cls, kind):
    nm = "%s.generate_noise(%s)" % (cls.split(".")[-1], kind)
    r = enter(prog, cls + ".generate_noise", args=[scin("scale"), scin("size")], selfattrs={"noise_kind": V(py(kind))}, ctor=dict(kw={"ext_EMD": V(NONE)}))
    rep.covered(r)
    ds = noise_atoms(r.returned)
    if len(ds) != 1:
        (rep.bad if not ds and not unknown_atoms(r.returned) else rep.undecided)(nm, R_GEN, where(r), "draws found: %d in %s" % (len(ds), t.show(r.returned, 3)))
        return
    if drawname(ds[0]) != "draw." + kind:
        rep.bad(nm, R_GEN, where(r), "drawn from %s" % drawname(ds[0]))
        return
    if not judge(rep, nm, R_GEN, where(r), r.returned, doc_noise(kind, sym("scale"), ds[0]), "noise"):
        return
    sz = ds[0].args[-1]
    if sz is mk("tuple", sym("size")) or sz is sym("size"):
        rep.ok(nm + " shape", R_GEN, where(r), "shape as requested")
    elif not any(y is sym("size") for y in t.walk(sz)):
        rep.bad(nm + " shape", R_GEN, where(r), "shape %s ignores the request" % t.show(sz, 3))
    else:
        rep.undecided(nm + " shape", R_GEN, where(r), "shape %s" % t.show(sz, 3))


def isnoisy(r, e):
    return e.data[1] is not None and isinstance(e.data[1], t.Term) and noise_atoms(e.data[1])


def trials_count(rep, nm, r, e):
    key = c07.trial_loop(e)
    L = r.I.loops.get(key)
    n = L.get("n") if L else None
    if n is None:
        ms = [x for x in r.I.events if x.kind == "poolmap"]
        for m in ms:
            if m.data[0].iota.args[0] == key:
                n = m.data[0].n
    if n is None:
        rep.undecided(nm + " count", R_ARG, e.where(), "trial loop not counted")
    elif n is sym("self.trials"):
        rep.ok(nm + " count", R_ARG, e.where(), "repeated self.trials times")
    elif unknown_atoms(n) or not {"self.trials"} & set(str(x) for x in t.walk(n)):
        rep.undecided(nm + " count", R_ARG, e.where(), "repeated %s times" % t.show(n, 3))
    else:
        rep.bad(nm + " count", R_ARG, e.where(), "repeated %s times instead of `trials`" % t.show(n, 3))


def passed(rep, nm, e, T, m):
    a = e.data[2]
    if T == "arr":
        if a is sym("T"):
            rep.ok(nm + " time", R_ARG, e.where(), "caller's time axis")
        elif unknown_atoms(a):
            rep.undecided(nm + " time", R_ARG, e.where(), "time %s" % t.show(a, 3))
        else:
            rep.bad(nm + " time", R_ARG, e.where(), "the trial gets time %s instead of the caller's" % t.show(a, 3))
    if m is not None:
        if e.data[3] is m:
            rep.ok(nm + " limit", R_ARG, e.where(), "limit %s" % t.show(m, 2))
        elif unknown_atoms(e.data[3]):
            rep.undecided(nm + " limit", R_ARG, e.where(), "limit %s" % t.show(e.data[3], 3))
        else:
            rep.bad(nm + " limit", R_ARG, e.where(), "the trial is limited to %s components instead of %s" % (t.show(e.data[3], 3), t.show(m, 2)))


def calls(r):
    return [e for e in r.I.events if e.kind == "call" and e.name == runs.EMD_QUAL + ".emd" and isnoisy(r, e)]


def eemd(prog, rep, kind, par, T):
    nm = "EEMD %s parallel=%s T=%s" % (kind, par, T)
    r = runs.eemd(prog, parallel=par, T=T, selfattrs={"noise_kind": V(py(kind))})
    rep.covered(r)
    S = sym("S")
    cs = calls(r)
    if not cs:
        rep.undecided(nm, R_AMP, where(r), "no noisy trial found")
    for e in cs:
        x = e.data[1]
        ds = noise_atoms(x)
        if len(ds) != 1:
            rep.undecided(nm, R_AMP, e.where(), "%d draws in one trial" % len(ds))
            continue
        if drawname(ds[0]) != "draw." + kind:
            rep.bad(nm, R_AMP, e.where(), "noise drawn from %s" % drawname(ds[0]))
            continue
        judge(rep, nm, R_AMP, e.where(), t.sub(x, S), doc_noise(kind, t.mul(W, ptp(S)), ds[0]), "noise of a trial")
        passed(rep, nm, e, T, sym("max_imf"))
        trials_count(rep, nm, r, e)


def leaves(x):
    return leaves(x.args[1]) + leaves(x.args[2]) if x.op == "ite" else [x]


def inner_emds(x):
    return [y for y in t.walk(x) if y.op == "app" and y.args[0] == "EMD.emd" and noise_atoms(y)]


def ceemdan(prog, rep, kind, beta, par, T):
    nm = "CEEMDAN %s beta_progress=%s parallel=%s T=%s" % (kind, beta, par, T)
    r = runs.ceemdan(prog, parallel=par, T=T, selfattrs={"noise_kind": V(py(kind)), "beta_progress": V(TRUE if beta else FALSE)})
    rep.covered(r)
    S = t.mul(sym("S"), t.powi(app("np.std", sym("S")), -1))
    stages = {"noise": 0, "first": 0, "later": 0}
    for e in calls(r):
        x = spread(e.data[1], app("np.std", sym("S")))
        X = inner_emds(x)
        if not X:
            if any(y is sym("S") and True for y in t.walk(x) if y.op == "sym") and not sizeonly(x):
                rep.undecided(nm, R_AMP, e.where(), "raw noise is added to the signal")
                continue
            stages["noise"] += 1
            ds = noise_atoms(x)
            if len(ds) != 1 or drawname(ds[0]) != "draw." + kind:
                rep.undecided(nm + " noise", R_AMP, e.where(), "draws %d" % len(ds))
                continue
            judge(rep, nm + " noise", R_AMP, e.where(), x, doc_noise(kind, NS, ds[0]), "decomposed noise")
            trials_count(rep, nm + " noise", r, e)
            continue
        if len(set(X)) != 1:
            rep.undecided(nm, R_AMP, e.where(), "%d noise decompositions in one trial" % len(set(X)))
            continue
        X = X[0]
        norm = t.powi(app("np.std", arr.idx(X, ZERO)), -1) if beta else ONE
        phis = [y for y in t.walk(x) if y.op == "phi"]
        if not phis:
            stages["first"] += 1
            want = t.mul(t.mul(EPS, norm), arr.idx(X, ZERO))
            judge(rep, nm + " first", R_AMP, e.where(), t.sub(x, S), want, "noise of a trial")
            passed(rep, nm + " first", e, T, ONE)
            trials_count(rep, nm + " first", r, e)
            continue
        stages["later"] += 1
        # remainder plus beta times the noise's component of the same number; bare remainder when the noise has no such component
        ls = leaves(x)
        noisy = [l for l in ls if inner_emds(l)]
        bare = [l for l in ls if not inner_emds(l)]
        ok = True
        for l in noisy:
            k = [y.args[1] for y in t.walk(l) if y.op == "idx" and y.args[0] is X and y.args[1] is not ZERO]
            if len(set(k)) != 1 or not bare:
                ok = None
                break
            base = bare[0]
            want = t.add(base, t.mul(t.mul(t.mul(EPS, app("np.std", base)), norm), arr.idx(X, k[0])))
            if not judge(rep, nm + " later", R_AMP, e.where(), l, want, "signal of a later trial"):
                ok = False
                break
            comp_no(rep, nm, e, r, k[0], X, x)
        if ok is None:
            rep.undecided(nm + " later", R_AMP, e.where(), "trial signal %s" % t.show(x, 4)[:200])
        passed(rep, nm + " later", e, T, ONE)
        trials_count(rep, nm + " later", r, e)
    for s, c in stages.items():
        if not c:
            rep.undecided("%s %s" % (nm, s), R_AMP, where(r), "stage not found")


def comp_no(rep, nm, e, r, k, X, x):
    """The noise component used for the k-th mode is the k-th (one per mode already extracted); a noise without it is not added."""
    name = nm + " component"
    L = app("len", X)
    ios = {y for y in t.walk(t.subst(k, {L: sym("components of the noise")})) if y.op == "iota"}
    if len(ios) != 1:
        rep.undecided(name, R_AMP, e.where(), "component number %s" % t.show(k, 3))
        return
    io = ios.pop()
    try:
        for i in (0, 1, 2, 5, 9):
            for d in (-2, -1, 0, 1, 2, 3, 7):
                n = i + 1 + d
                if n < 1:
                    continue
                env = {io: i, L: n}
                y = x
                while y.op == "ite":
                    y = y.args[1] if ground(y.args[0], env) else y.args[2]
                noisy = bool(inner_emds(y))
                if noisy != (n > i + 1):
                    rep.bad(name, R_AMP, e.where(), "with %d noise components, mode %d is decomposed %s noise" % (n, i + 1, "with" if noisy else "without"))
                    return
                if noisy and ground(k, env) != i + 1:
                    rep.bad(name, R_AMP, e.where(), "mode %d (counted from 0) is assisted by noise component %s of %d" % (i + 1, ground(k, env), n))
                    return
    except Unknown as u:
        rep.undecided(name, R_AMP, e.where(), "component number %s: %s" % (t.show(k, 3), u))
        return
    rep.ok(name, R_AMP, e.where(), "component number %s, used only when present" % t.show(k, 3))


def sizeonly(x):
    """S enters only through its length."""
    bad = []

    def go(y):
        if y.op == "app" and y.args[0] in ("len", "dtype", "shape"):
            return
        if y is sym("S"):
            bad.append(y)
        for z in t.subterms(y):
            go(z)
    go(x)
    return not bad


def check(prog, rep, tier):
    for cls in ("PyEMD.EEMD.EEMD", "PyEMD.CEEMDAN.CEEMDAN"):
        for kind in ("normal", "uniform"):
            rep.guard("%s.generate_noise(%s)" % (cls.split(".")[-1], kind), R_GEN, lambda: gen(prog, rep, cls, kind))
    for kind in ("normal", "uniform"):
        for par in (False, True):
            for T in ("none", "arr"):
                rep.guard("EEMD %s parallel=%s T=%s" % (kind, par, T), R_AMP, lambda: eemd(prog, rep, kind, par, T))
                for beta in (True, False):
                    rep.guard("CEEMDAN %s beta_progress=%s parallel=%s T=%s" % (kind, beta, par, T), R_AMP, lambda: ceemdan(prog, rep, kind, beta, par, T))
