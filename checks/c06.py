from .common import *
from . import entries
from sa import deps
from .c05 import result_terms

EXPLANATION = ("Taint analysis of every source of nondeterminism (global generators, fresh entropy, clock, process or object identity, "
               "completion order of workers) into returned values, through loops and their exit conditions; and value numbering of the "
               "generator state after seeding, for every seed.")
R_TAINT = "no entropy, clock, identity, global generator or worker-completion order flows into a returned value"
R_SEED = "after seeding with any value the generator state is a function of the seed alone"
R_OWN = "the noise generator is created by, and private to, the instance"
R_USE = "noise flows into the result from the instance's own generator"
ENS = (("EEMD", "PyEMD.EEMD.EEMD", runs.eemd), ("CEEMDAN", "PyEMD.CEEMDAN.CEEMDAN", runs.ceemdan))
SOURCES = {"impure": "nondeterministic source", "entropy": "fresh entropy", "perm": "worker completion order"}


def taint(r):
    out = []
    for y in deps.closure(r.I, result_terms(r)):
        if y.op == "app" and y.args[0] in SOURCES:
            out.append((SOURCES[y.args[0]], " ".join(str(a.args[0]) for a in y.args[1:] if isinstance(a, t.Term) and a.op == "py")))
        if y.op == "sym" and y.args[0].startswith("rng:") and not y.args[0].startswith("rng:self."):
            out.append(("foreign generator", y.args[0]))
    return sorted(set(out))


def reordered(r):
    """Completion order undone by sorting on, or storing at, a transported index."""
    for y in deps.closure(r.I, result_terms(r)):
        if y.op == "app" and y.args[0] in ("sorted", "np.argsort", "np.sort", "np.lexsort"):
            return True
        q = y.args[1:] if y.op == "app" and y.args[0] in ("dstore", "store", "setitem") else y.args if y.op == "store" else ()
        if len(q) >= 3 and carries(q[1]) and not any(z is q[0] for z in t.walk(q[2])):
            return True
    return False


def carries(x):
    """the index itself comes from a worker's result (not only the size of that result)"""
    if x.op == "app" and x.args[0] in ("len", "shape", "dim"):
        return False
    if x.op == "app" and x.args[0] == "perm":
        return True
    return any(carries(y) for a in x.args for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, t.Term)) if x.op != "poly" else any(carries(z) for m, _ in x.args[0] for z, _ in m)


def seeded(rep, name, wh, I, x, attr):
    if x is app("rng.seeded", sym("seed")):
        rep.ok(name, R_SEED, wh, "state of self.%s is seeded(seed) on every path" % attr)
        return
    ss = deps.syms(I, [x])
    if ss - {"seed"} or not ss or {"entropy", "impure"} & deps.funs(I, [x]):
        rep.bad(name, R_SEED, wh, "generator state after seeding is %s: it also depends on %s" % (t.show(x, 5), sorted(ss - {"seed"}) or "something else than the seed"))
    elif any(y.op == "app" and y.args[0] not in ("rng.seeded", "int") for y in t.walk(x)):
        rep.bad(name, R_SEED, wh, "generator state after seeding is %s, not that of the given seed" % t.show(x, 5)) if collides(x) else rep.ok(name, R_SEED, wh)
    elif any(y is NONE for y in t.walk(x)):
        rep.bad(name, R_SEED, wh, "generator state after seeding is %s: for some seeds it is fresh entropy" % t.show(x, 5))
    elif any(y.op == "ite" for y in t.walk(x)) and x is not app("rng.seeded", t.ite(sym("seed"), sym("seed"), ZERO)):
        rep.undecided(name, R_SEED, wh, "generator state after seeding is %s" % t.show(x, 5))
    else:
        rep.ok(name, R_SEED, wh)


def alternatives(v):
    return alternatives(v.a) + alternatives(v.b) if isinstance(v, VIte) else [v]


def check(prog, rep, tier):
    for f in entries.public_functions(prog):
        if f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN") or f.name == "__call__":
            continue

        def go():
            r = entries.run_public(prog, f)
            rep.covered(r)
            tn = taint(r)
            if tn:
                rep.bad(f.qual, R_TAINT, where(r), "returned value depends on %s (%s)" % tn[0])
            else:
                rep.ok(f.qual, R_TAINT, where(r))
        rep.guard(f.qual, R_TAINT, go)

    for nm, q, mkrun in ENS:
        for par in (False, True):
            for T in ("none", "arr"):
                name = "%s parallel=%s T=%s" % (nm, par, T)

                def go():
                    r = mkrun(prog, parallel=par, T=T)
                    rep.covered(r)
                    tn = taint(r)
                    if tn and all(w == SOURCES["perm"] for w, _ in tn) and reordered(r):
                        rep.undecided(name, R_TAINT, where(r), "worker results arrive in completion order and are put back by index")
                    elif tn:
                        for what, src in tn:
                            rep.bad("%s depends on %s %s" % (name, what, src), R_TAINT, where(r), "returned value depends on %s (%s)" % (what, src))
                    else:
                        rep.ok(name, R_TAINT, where(r))
                    threads = [e for e in r.I.events if e.kind == "poolmap" and e.data[1] == "thread"]
                    if threads and any(e.kind == "draw" and e.par for e in r.I.events):
                        rep.bad(name + " threads", R_TAINT, threads[0].where(), "threads draw from one generator in scheduling order")
                    s = deps.syms(r.I, [r.returned])
                    if "rng:self.random" in s:
                        rep.ok(name + " generator", R_USE, where(r))
                    elif any(x.startswith("rng:self.") for x in s):
                        rep.ok(name + " generator", R_USE, where(r))
                    elif tn:
                        pass
                    else:
                        rep.undecided(name + " generator", R_USE, where(r), "no draw from the instance's generator seen")
                rep.guard(name, R_TAINT, go)

        def seed():
            r = enter(prog, q + ".noise_seed", args=[scin("seed")], ctor=dict(kw={"ext_EMD": V(NONE)}))
            rep.covered(r)
            rngs = used_generators(prog, mkrun)
            for a in rngs:
                v = r.attr(a)
                if not isinstance(v, ORef) or r.st.heap[v.cid].kind != "rng":
                    rep.undecided("%s.noise_seed" % nm, R_SEED, where(r), "generator attribute `%s` not followed" % a)
                    continue
                x = r.st.heap[v.cid].content
                seeded(rep, "%s.noise_seed" % nm, where(r), r.I, x, a)
        rep.guard(nm + ".noise_seed", R_SEED, seed)

        def own():
            f = get_func(prog, q + "." + mkrun.__name__)
            rngs = used_generators(prog, mkrun)
            I = Interp(prog)
            st = State(dict(I.state0.heap), {}, ())
            o = [en.construct(I, st, get_class(prog, q), kw={"ext_EMD": V(NONE)}) for _ in (0, 1)]
            for a, v in st.heap[o[0].cid].attrs.items():
                # held and drawn through: a generator taken for a module under some option is the process-wide one
                vs = alternatives(v)
                if len(vs) > 1 and any(isinstance(x, ORef) and st.heap[x.cid].kind == "rng" for x in vs) and any(isinstance(x, Ext) and x.name in ("numpy.random", "random") for x in vs):
                    rep.bad("%s generator self.%s" % (nm, a), R_OWN, "%s:%d %s" % (f.cls.module.rel, f.cls.node.lineno, f.cls.qual), "for some options the generator is the process-wide one")
            for a in rngs:
                vs = [st.heap[x.cid].attrs.get(a) for x in o]
                nmx = "%s generator self.%s" % (nm, a)
                wh = "%s:%d %s" % (f.cls.module.rel, f.cls.node.lineno, f.cls.qual)
                if any(v is None for v in vs):
                    c = I.class_attr(st, get_class(prog, q), a)
                    if c is not None:
                        rep.bad(nmx, R_OWN, wh, "generator lives on the class: all instances share its state")
                    else:
                        rep.undecided(nmx, R_OWN, wh, "not set by the constructor")
                    continue
                if not all(isinstance(v, ORef) for v in vs):
                    rep.undecided(nmx, R_OWN, wh, "not followed")
                elif vs[0].cid == vs[1].cid:
                    rep.bad(nmx, R_OWN, wh, "two instances share one generator (%s)" % st.heap[vs[0].cid].origin)
                else:
                    x = st.heap[vs[0].cid].content
                    rep.ok(nmx, R_OWN, wh, "initial state %s" % t.show(x, 4))
        rep.guard(nm + " generator ownership", R_OWN, own)

        def option():
            I = Interp(prog)
            st = State(dict(I.state0.heap), {}, ())
            o = en.construct(I, st, get_class(prog, q), kw={"ext_EMD": V(NONE), "seed": V(sym("seed"))})
            f = get_func(prog, q + ".__init__")
            wh = "%s:%d %s" % (f.module.rel, f.node.lineno, f.qual)
            for a in used_generators(prog, mkrun):
                v = st.heap[o.cid].attrs.get(a)
                if not isinstance(v, ORef) or st.heap[v.cid].kind != "rng":
                    rep.undecided("%s seed option" % nm, R_SEED, wh, "generator attribute `%s` not followed" % a)
                    continue
                seeded(rep, "%s seed option" % nm, wh, I, t.subst(st.heap[v.cid].content, {mk("is", sym("seed"), NONE): FALSE}), a)
        if nm == "CEEMDAN":
            rep.guard(nm + " seed option", R_SEED, option)


def collides(x):
    """Seeding through a lossy function of the seed."""
    return any(y.op == "app" and y.args[0] in ("mod", "floordiv", "np.mod", "np.floor", "and", "min", "max", "hash", "truth", "abs", "np.abs") for y in t.walk(x)) or any(y.op == "ite" for y in t.walk(x))


def used_generators(prog, mkrun):
    r = mkrun(prog, parallel=False)
    s = {x[len("rng:self."):] for x in deps.syms(r.I, [r.returned]) if x.startswith("rng:self.")}
    return sorted(s) or ["random"]
