from .common import *
from . import entries
from sa import history
from .c05 import leftovers

EXPLANATION = ("Alias analysis of results: the memory a returned component matrix may share (views, casts without copy, containers, stored "
               "attributes) is followed to its allocation; and each operation is re-analysed in the state earlier calls leave behind, with "
               "every retained array tagged, so that an in-place effect on an array an earlier call handed out is seen.")
RULE_IN = "returned and stored results share no memory with a caller's argument"
RULE_OLD = "no in-place effect reaches an array, list or dict that an earlier call left behind or handed out"
RULE_STATIC = "results are allocated by the call, not held in module, class or default-argument storage"
RESULT_ATTRS = ("imfs", "residue", "E_IMF", "C_IMF", "all_imfs", "_all_imfs")


def result_ops(prog):
    out = []
    for q in sorted(entries.KEY):
        if q.startswith("PyEMD.checks") or "get_imfs" in q:
            continue
        out.append(get_func(prog, q))
    for q in ("PyEMD.utils.get_timeline", "PyEMD.EMD.EMD._normalize_time", "PyEMD.compact.TDMAsolver", "PyEMD.splines.cubic_spline_3pts",
              "PyEMD.EMD_matlab.EMD.emd", "PyEMD.compact.filt6_e", "PyEMD.compact.pade6_e"):
        try:
            out.append(get_func(prog, q))
        except AnchorMissing:
            pass
    return out


def check(prog, rep, tier):
    ops = result_ops(prog)
    for f in ops:
        opt = entries.optional_arrays(f)
        for none in [()] + ([tuple(opt)] if opt else []):
            ens = f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN")
            for par in ((False, True) if ens else (None,)):
                nm = f.qual + ("" if not none else " without " + ",".join(none)) + ("" if par is None else " parallel=%s" % par)
                rep.guard(nm, RULE_IN, lambda: fresh(prog, rep, f, none, par, nm))

    groups = {}
    for f in entries.public_functions(prog):
        groups.setdefault(f.cls.qual if f.cls else f.module.name, []).append(f)

    def later(g, fs):
        left = leftovers(prog, rep, fs)
        for f in fs:
            if f.name == "__call__":
                continue
            opt = entries.optional_arrays(f)
            for none in [()] + ([tuple(opt)] if opt else []):
                nm = f.qual + ("" if not none else " without " + ",".join(none))
                rep.guarded(nm + " later call", RULE_OLD, lambda: rewrite(prog, rep, f, none, left, nm), limit=60)
    for g, fs in sorted(groups.items()):
        rep.guard("operations of " + g, RULE_OLD, lambda: later(g, fs))


def fresh(prog, rep, f, none, par, nm):
    sa = None if par is None else {"parallel": V(TRUE if par else FALSE)}
    r = entries.run_public(prog, f, none, selfattrs=sa)
    rep.covered(r)
    got = [("the returned value", r.value)]
    if r.self_ref is not None:
        for a in RESULT_ATTRS:
            v = r.attr(a)
            if v is not None:
                got.append(("self." + a, v))
    bad = 0
    for what, v in got:
        o = origins(r, r.I.roots(r.st, v))
        for x in sorted(o):
            if x.startswith("input:"):
                bad += 1
                rep.bad(nm + " " + what + " aliases " + x[6:], RULE_IN, where(r), "%s may share memory with argument `%s`" % (what, x[6:]))
            elif x.startswith(history.PERSIST):
                bad += 1
                rep.bad(nm + " " + what + " held in " + x, RULE_STATIC, where(r), "%s is held in storage that outlives the call: %s" % (what, x))
    if not bad:
        rep.ok(nm, RULE_IN, where(r), "%d result values, all freshly allocated" % len(got))


def rewrite(prog, rep, f, none, left, nm):
    r = entries.run_public(prog, f, none, setup=history.generaliser(left, arrays=True))
    rep.covered(r)
    hits = {}
    n = 0
    for e in r.I.events:
        if e.kind != "write":
            continue
        n += 1
        o = sorted(x for x in origins(r, e.data) if x.startswith("past:") or x.startswith("attr:self.") and x[5:] in history.names(left))
        if o:
            hits.setdefault((o[0], e.where()), e)
    for (o, w), e in hits.items():
        rep.bad(nm + " rewrites " + o, RULE_OLD, w, "in-place effect on `%s`, which an earlier call may have handed out" % o)
    if not hits:
        rep.ok(nm + " later call", RULE_OLD, where(r), "%d in-place effects, none on retained results" % n)
