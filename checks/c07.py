from .common import *
from sa import deps
from sa.bisim import Bisim

EXPLANATION = ("Value numbering of the signal handed to the inner decomposition in each trial: its noise part must be indexed injectively by "
               "the trial (through the generator state or a row index).  The serial and the parallel variant are analysed separately and "
               "their returned values compared by partition refinement of loop-carried values across the two runs.")
R_DIST = "the noise of a trial is an injective function of the trial index (distinct draws per trial)"
R_SAME = "value number of the parallel result equals that of the serial result"
R_RACE = "workers sharing memory do not write shared state"


def index_of(x):
    return [y for y in t.walk(x) if y.op in ("iota", "phi")]


def affine(e, i):
    """e = k*i + c with k != 0 and c free of i."""
    p = t.as_poly(e)
    k = p.get(((i, 1),), 0)
    if not k:
        return False
    rest = {m: c for m, c in p.items() if m != ((i, 1),)}
    return not any(y is i for m in rest for a, _ in m for y in t.walk(a))


def trial_loop(e):
    """Key of the innermost loop or parallel map around a call."""
    c = list(e.ctx)
    while c and not c[-1].startswith(("L", "pool@")):
        c.pop()
    return "/".join(c)


def carriers(x, I, key):
    """How the trial index (of loop `key`) enters a noise term: list of (kind, term)."""
    out = []
    seen = set()

    def go(y):
        if y.id in seen:
            return
        seen.add(y.id)
        if y.op == "idx":
            e = y.args[1]
            its = [z for z in (t.walk(e) if isinstance(e, t.Term) else ()) if z.op == "iota" and z.args[0] == key]
            base = y.args[0]
            rep = base.op == "app" and str(base.args[0]) in ("np.broadcast_to", "np.tile", "np.repeat", "np.resize", "listrep")
            for i in its:
                out.append(("lossy" if rep and repeated(base) else "other" if rep else "ok" if affine(e, i) else "lossy", e))
            go(y.args[0])
            return
        if y.op == "app" and y.args[0] in ("rngiter", "perm", "rng.seeded"):
            e = y.args[-1]
            for i in [z for z in t.walk(e) if z.op == "iota" and z.args[0] == key]:
                out.append(("ok" if affine(e, i) else ("lossy" if lossy(e) else "other"), e))
            for a in y.args[1:-1]:
                if isinstance(a, t.Term):
                    go(a)
            return
        if y.op == "phi":
            inf = I.phis.get(y)
            if y.args[0] == key and inf is not None and inf["back"] is not None and any(z.op == "app" and str(z.args[0]).startswith(("rng.next", "draw.")) for z in t.walk(inf["back"])):
                out.append(("ok", y))
            return
        if y.op == "iota" and y.args[0] == key:
            out.append(("other", y))
            return
        for z in t.subterms(y):
            go(z)
    go(x)
    return out


def repeated(b):
    """rows of a broadcast or repeated array are copies of fewer draws"""
    if b.args[0] in ("np.tile", "np.repeat", "listrep"):
        return True
    ds = draws(b.args[1])
    return bool(ds) and all(d.args[-1].op == "tuple" and (len(d.args[-1].args) == 1 or d.args[-1].args[0] is ONE) for d in ds)


def variants(x, key, limit=6):
    """x with every condition that does not depend on the trial settled one way or the other"""
    out, todo = [], [(x, 0)]
    while todo:
        y, n = todo.pop()
        c = next((z.args[0] for z in t.walk(y) if z.op == "ite" and not any(w.op in ("iota", "phi", "bv") and (w.op == "bv" or str(w.args[0]).startswith(key)) for w in t.walk(z.args[0]))), None)
        if c is None or n >= limit:
            out.append(y)
            continue
        for b in (TRUE, FALSE):
            todo.append((t.subst(y, {c: b, t.not_(c): t.not_(b)}), n + 1))
    return [x] + [y for y in out if y is not x]


def lossy(e):
    return any(y.op == "app" and y.args[0] in ("mod", "floordiv", "np.floor", "np.mod", "int", "min", "max") for y in t.walk(e))


def draws(x):
    return [y for y in t.walk(x) if y.op == "app" and str(y.args[0]).startswith("draw.")]


def trial_calls(r):
    return [e for e in r.I.events if e.kind == "call" and e.name == runs.EMD_QUAL + ".emd" and e.data[1] is not None and isinstance(e.data[1], t.Term) and
            (draws(e.data[1]) or any(y.op == "phi" and draws_phi(r, y) for y in t.walk(e.data[1])))]


def draws_phi(r, p):
    inf = r.I.phis.get(p)
    return inf is not None and inf["back"] is not None and bool(draws(inf["back"]))


def distinct(rep, name, r):
    calls = trial_calls(r)
    if not calls:
        rep.undecided(name, R_DIST, where(r), "no noisy trial found")
        return
    seen = set()
    for e in calls:
        key = trial_loop(e)
        L = r.I.loops.get(key)
        if not key.split("/")[-1].startswith("pool@") and not (L and L.get("n") is not None and "self.trials" in deps.syms(r.I, [L["n"]])):
            continue          # not repeated per trial
        x = e.data[1]
        # only the part of the argument that carries the noise; each way the conditions can fall
        ways = [(y, carriers(y, r.I, key)) for y in variants(x, key) if y is x or draws(y)]
        worst = [(y, c) for y, c in ways if not c] or [(y, c) for y, c in ways if "lossy" in {k for k, _ in c} and "ok" not in {k for k, _ in c}] or ways
        x, cs = worst[0]
        kinds = {k for k, _ in cs}
        nm = "%s trials via %s" % (name, " > ".join(q.split(".")[-1] for q in e.stack[1:]))
        if nm in seen:
            continue
        seen.add(nm)
        if not cs:
            rep.bad(nm, R_DIST, e.where(), "every trial is decomposed with the same noise: %s does not depend on the trial" % t.show(x, 5))
        elif "lossy" in kinds and "ok" not in kinds:
            rep.bad(nm, R_DIST, e.where(), "noise index %s is shared by several trials" % t.show([c for k, c in cs if k == "lossy"][0], 4))
        elif "ok" in kinds:
            rep.ok(nm, R_DIST, e.where(), "noise of a trial: %s" % t.show(x, 3))
        else:
            rep.undecided(nm, R_DIST, e.where(), "trial index enters as %s" % t.show(cs[0][1], 4))


def unknowns(r, xs):
    return [y for y in deps.closure(r.I, xs) if y.op == "havoc" or y.op == "app" and y.args[0] in ("call", "opaque", "perm", "sorted")]


def same(rep, name, a, b):
    B = Bisim([a.I, b.I])
    if B.same(0, a.returned, 1, b.returned):
        rep.ok(name, R_SAME, where(a), "equal value numbers, %d classes of loop-carried values" % B.nclasses)
        return
    u = unknowns(a, [a.returned]) + unknowns(b, [b.returned])
    x, y = diverge(B.term(0, a.returned), B.term(1, b.returned))
    msg = "serial %s, parallel %s" % (t.show(x, 4), t.show(y, 4))
    from .c06 import reordered
    if u and all(z.op == "app" and z.args[0] == "perm" for z in u) and not (a.I.imprecise or b.I.imprecise) and not reordered(a) and not reordered(b):
        rep.bad(name, R_SAME, where(b), "the results of the trials are used in the order in which the workers finish: " + msg)
    elif u or a.I.imprecise or b.I.imprecise:
        rep.undecided(name, R_SAME, where(a), "values not fully followed (%s): %s" % ((u or ["imprecise"])[0], msg))
    else:
        rep.bad(name, R_SAME, where(a), "the results differ: " + msg)


def diverge(x, y, depth=12):
    """First differing pair of subterms."""
    while depth:
        depth -= 1
        if x.op != y.op or x.op in ("poly", "sym", "num"):
            return x, y
        a, b = list(t.subterms(x)), list(t.subterms(y))
        if len(a) != len(b):
            return x, y
        d = [(p, q) for p, q in zip(a, b) if p is not q]
        if not d:
            return x, y
        x, y = d[0]
    return x, y


def check(prog, rep, tier):
    for nm, mkrun in (("EEMD", runs.eemd), ("CEEMDAN", runs.ceemdan)):
        for T in ("none", "arr"):
            def go():
                rs = {par: mkrun(prog, parallel=par, T=T) for par in (False, True)}
                for par, r in rs.items():
                    rep.covered(r)
                    distinct(rep, "%s parallel=%s T=%s" % (nm, par, T), r)
                    for e in r.I.events:
                        if e.kind == "poolmap" and e.data[1] == "thread":
                            w = [x for x in r.I.events if x.par and x.kind in ("setattr", "draw") and str(x.name).startswith(("self", "rng:self"))]
                            w += [x for x in r.I.events if x.par and x.kind == "call" and x.name == runs.EMD_QUAL + ".emd"]
                            if w:
                                rep.bad("%s threads T=%s" % (nm, T), R_RACE, e.where(), "threads share one object that each trial writes (%s)" % w[0].where())
                same(rep, "%s serial and parallel T=%s" % (nm, T), rs[False], rs[True])
            rep.guard("%s T=%s" % (nm, T), R_DIST, go)
