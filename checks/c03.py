from .common import *
from . import entries

EXPLANATION = ("Alias and effect analysis: every public operation is analysed with its array arguments bound to tagged memory; every "
               "store, in-place operator, mutating method and out= argument reachable from it is an effect on the memory its target "
               "may share (views, casts without copy, attributes and containers included).")
RULE = "no reachable in-place effect has a target that may share memory with a caller's argument"
EXPECT = 100


def check(prog, rep, tier):
    seen = set()
    for f in list(entries.public_functions(prog)):
        seen.add(f.qual)
        variants = [()]
        opt = entries.optional_arrays(f)
        if opt:
            variants.append(tuple(opt))
        for none in variants:
            name = f.qual + ("" if not none else " without " + ",".join(none))

            def go():
                r = entries.run_public(prog, f, none)
                rep.covered(r)
                judge(rep, r, name)
            rep.guard(name, RULE, go)
    for k in entries.KEY:
        get_func(prog, k)


def judge(rep, r, name):
    n = 0
    hits = {}
    for e in r.I.events:
        if e.kind != "write":
            continue
        n += 1
        o = sorted(x for x in origins(r, e.data) if x.startswith("input:"))
        if o:
            hits.setdefault((o[0], e.where()), e)
    if not hits:
        rep.ok(name, RULE, where(r), "%d in-place effects, none on an argument" % n)
    for (o, w), e in hits.items():
        rep.bad(name + " modifies argument " + o[6:], RULE, w, "in-place effect on memory of argument `%s` reached through %s" % (o[6:], " > ".join(e.stack)))
