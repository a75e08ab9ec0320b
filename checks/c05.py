from .common import *
from . import entries
from sa import history, deps

EXPLANATION = ("Dependence analysis: each operation is analysed twice, the second time in a state where everything any operation of the same "
               "object leaves behind (instance attributes that are not options, module globals, class attributes, default arguments) holds "
               "arbitrary values.  The returned value, followed through loop phis and loop-exit conditions, must not depend on them; the "
               "noise generator is the only state that may carry over.")
RULE = "returned value has no data or control dependence on state written by earlier calls (noise generator excepted)"
SKIP = ("Visualisation",)


def decides(f):
    """Operations whose result is a function of their arguments (not accessors)."""
    if f.cls is None:
        return True
    if f.cls.name in SKIP or f.name == "__call__":
        return False
    ps = [p for p in entries.params(f) if p.arg != "self"]
    return bool(ps)


def leftovers(prog, rep, fs):
    """What operations of one class leave behind, and the runs."""
    left = set()
    for f in fs:
        if f.name == "__call__":
            continue
        try:
            r = entries.run_public(prog, f)
            left |= history.left_behind(r, r.before)
        except AnchorMissing:
            raise
        except Exception:
            pass
    return left


def result_terms(r):
    out = []

    def go(v):
        if isinstance(v, Tup):
            for x in v.items:
                go(x)
        elif isinstance(v, VIte):
            out.append(v.c)
            go(v.a)
            go(v.b)
        elif v is not None:
            out.append(r.term(v))
    go(r.value)
    return out


def check(prog, rep, tier):
    groups = {}
    for f in entries.public_functions(prog):
        groups.setdefault(f.cls.qual if f.cls else f.module.name, []).append(f)
    for k in entries.KEY:
        get_func(prog, k)

    emd = groups.get(runs.EMD_QUAL, [])

    def group(g, fs):
        left = leftovers(prog, rep, fs)
        bad = history.names(left)
        if any(f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN") for f in fs):
            for x in leftovers(prog, rep, emd):
                if x[0] == "attr":
                    bad.add("self.EMD." + x[1])
        for f in fs:
            if not decides(f):
                continue
            opt = entries.optional_arrays(f)
            for none in [()] + ([tuple(opt)] if opt else []):
                name = f.qual + ("" if not none else " without " + ",".join(none))
                own = f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN")
                for par in ((False, True) if own else (None,)):
                    nm = name + ("" if par is None else " parallel=%s" % par)
                    rep.guarded(nm, RULE, lambda: judge(prog, rep, f, none, nm, left, bad, par), limit=60)

    for g, fs in sorted(groups.items()):
        rep.guard("operations of " + g, RULE, lambda: group(g, fs))


def judge(prog, rep, f, none, name, left, bad, par):
    sa = None if par is None else {"parallel": V(TRUE if par else FALSE)}
    r = entries.run_public(prog, f, none, selfattrs=sa, setup=history.generaliser(left))
    rep.covered(r)
    bad = bad | history.names(history.left_behind(r, r.before))
    s = deps.syms(r.I, result_terms(r))
    hit = sorted(x for x in s if x in bad)
    pre = sorted(x for x in s if x.startswith("@pre:self.") and x not in hit)
    hit = [h for h in hit if not memo(r, h)]
    if not hit and f.name in ("emd", "eemd", "ceemdan", "bemd"):
        # the number type the decomposition computes in
        hit = sorted(x for x in deps.syms(r.I, sorted(r.I.dtypes, key=lambda y: y.id)) if x in bad)
    if hit:
        for h in hit:
            rep.bad(name + " depends on " + h, RULE, where(r), "the result depends on `%s`, which earlier calls change" % h)
    elif pre:
        rep.undecided(name, RULE, where(r), "reads %s, set outside the analysed operations" % pre)
    else:
        rep.ok(name, RULE, where(r), "%d inputs and options, %d state elements written by earlier calls, no dependence" % (len(s), len(bad)))


def memo(r, h):
    """A keyed cache whose stored values are determined by their key is not an observable dependence."""
    if not h.startswith("past:"):
        return False
    for e in r.I.events:
        if e.kind == "dstore" and e.name == h[5:]:
            k, v = e.data
            if not deps.syms(r.I, [v]) <= deps.syms(r.I, [k]) | {h}:
                return False
            return True
    return False
