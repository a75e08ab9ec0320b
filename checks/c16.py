from .common import *
from .c07 import same as same_, diverge
from sa.bisim import Bisim

EXPLANATION = ("The call operator is analysed with the named method kept opaque: it must forward every argument unchanged and return the "
               "method's value.  Progress display on and off are analysed separately and the returned values compared by partition refinement.")
R_CALL = "calling the object is the named method applied to the same arguments"
R_PROG = "value number of the result is the same with and without progress display"
OPS = (("PyEMD.EMD.EMD", "emd"), ("PyEMD.EEMD.EEMD", "eemd"), ("PyEMD.CEEMDAN.CEEMDAN", "ceemdan"), ("PyEMD.EMD2d.EMD2D", "emd"),
       ("PyEMD.BEMD.BEMD", "bemd"), ("PyEMD.experimental.jitemd.JitEMD", "emd"))


def capture(prog, qual):
    f = get_func(prog, qual)

    def h(I, st, args, kw, node):
        env = runs.bindargs(I, st, f, args, kw, node)
        names = [a.arg for a in f.node.args.args[1:]] + [a.arg for a in f.node.args.kwonlyargs]
        x = app("method", *[mk("tuple", py(n), I.read(st, env[n]) if env.get(n) is not None else NONE) for n in names])
        arr.RANK[x] = 2
        return I.newarr(st, x, 2)
    return f, h


def call(prog, rep, cls, meth):
    c = get_func(prog, cls + ".__call__")
    f, h = capture(prog, cls + "." + meth)
    from . import entries
    ps = entries.params(c)
    args = [V(sym("arg." + p.arg)) for p in ps]
    for p in ps:
        arr.RANK[sym("arg." + p.arg)] = {"S": 1, "T": 1, "s": 1, "t": 1, "image": 2}.get(p.arg, 0)
    args = [(arrin("arg." + p.arg, arr.RANK[sym("arg." + p.arg)]) if arr.RANK[sym("arg." + p.arg)] else scin("arg." + p.arg)) for p in ps]
    r = enter(prog, cls + ".__call__", args=args[:len(c.node.args.args) - 1],
              kw={p.arg: a for p, a in list(zip(ps, args))[len(c.node.args.args) - 1:]}, opaque={f.qual: h},
              ctor=dict(kw={"ext_EMD": V(NONE)}) if "ext_EMD" in [a.arg for a in get_func(prog, cls + ".__init__").node.args.args] else None)
    rep.covered(r)
    nm = cls + ".__call__"
    x = r.returned
    if x.op == "app" and x.args[0] == "method":
        bad = []
        have = {p.arg for p in ps}
        for a in x.args[1:]:
            k, v = a.args[0].args[0], a.args[1]
            if k in have and v is not sym("arg." + k):
                bad.append("argument `%s` is passed on as %s" % (k, t.show(v, 3)))
            elif k not in have:
                bad.append("argument `%s` cannot be given" % k) if k not in ("config",) else None
        if bad:
            rep.bad(nm, R_CALL, where(r), "; ".join(bad))
        else:
            rep.ok(nm, R_CALL, where(r), "%d arguments forwarded" % len(have))
    elif any(y.op == "app" and y.args[0] == "method" for y in t.walk(x)):
        rep.bad(nm, R_CALL, where(r), "returned value is %s, not the method's value" % t.show(x, 4))
    else:
        # not through the method: compare whole analyses
        rep.undecided(nm, R_CALL, where(r), "does not go through %s" % meth)


def defaults(prog, rep, cls, meth):
    """Omitted arguments mean the same through both."""
    import ast
    c, f = get_func(prog, cls + ".__call__"), get_func(prog, cls + "." + meth)

    def dv(g):
        a = g.node.args
        out = {}
        for p, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
            out[p.arg] = ast.unparse(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = ast.unparse(d)
        return out
    dc, df = dv(c), dv(f)
    nm = cls + " defaults"
    wh = "%s:%d %s" % (c.module.rel, c.node.lineno, c.qual)
    def lit(x):
        try:
            return ast.literal_eval(x)
        except Exception:
            return None if x != "None" else "None"
    dc, df = {k: v for k, v in dc.items() if lit(v) is not None or v == "None"}, {k: v for k, v in df.items() if lit(v) is not None or v == "None"}
    bad = ["`%s` defaults to %s through the call and %s through %s" % (k, dc[k], df[k], meth) for k in dc if k in df and lit(dc[k]) != lit(df[k])]
    if bad:
        rep.bad(nm, R_CALL, wh, "; ".join(bad))
    else:
        rep.ok(nm, R_CALL, wh)


def check(prog, rep, tier):
    for cls, meth in OPS:
        rep.guard(cls, R_CALL, lambda: call(prog, rep, cls, meth))
        rep.guard(cls + " defaults", R_CALL, lambda: defaults(prog, rep, cls, meth))
    for nm, mkrun in (("EEMD", runs.eemd), ("CEEMDAN", runs.ceemdan)):
        for par in (False, True):
            for T in ("none", "arr"):
                def go():
                    a = mkrun(prog, parallel=par, T=T)
                    b = mkrun(prog, parallel=par, T=T, kw={"progress": V(TRUE)})
                    rep.covered(b)
                    name = "%s progress parallel=%s T=%s" % (nm, par, T)
                    B = Bisim([a.I, b.I])
                    if B.same(0, a.returned, 1, b.returned):
                        rep.ok(name, R_PROG, where(a), "%d classes of loop-carried values" % B.nclasses)
                    else:
                        from .c07 import unknowns
                        u = unknowns(a, [a.returned]) + unknowns(b, [b.returned])
                        x, y = diverge(B.term(0, a.returned), B.term(1, b.returned))
                        rep.verdict("unknown" if u or a.I.imprecise or b.I.imprecise else "bad", name, R_PROG, where(a), "without progress %s, with progress %s" % (t.show(x, 4), t.show(y, 4)))
                rep.guard("%s progress" % nm, R_PROG, go)
