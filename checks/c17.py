from .common import *
from . import entries
from sa import history
from fractions import Fraction

EXPLANATION = ("Each constructor is interpreted with one option symbolic and the others omitted: the attribute that holds the option must be the given "
               "value (through int, float or bool where the documentation names that type), and without it the documented default.  Every public "
               "operation is then interpreted on an object with arbitrary options: at its normal exit each option, of the object and of its "
               "inner decomposition, must be the value it had at entry.")
R_GIVEN = "an option given to the constructor is held as given"
R_DEF = "an omitted option holds its documented default"
R_KEEP = "operations leave the options of the object (and of its inner decomposition) as they are"

EMD = {"spline_kind": "cubic", "nbsym": 2, "FIXE": 0, "FIXE_H": 0, "MAX_ITERATION": 1000, "energy_ratio_thr": 0.2, "std_thr": 0.2, "svar_thr": 0.001,
       "total_power_thr": 0.005, "range_thr": 0.001, "extrema_detection": "simple"}
CLASSES = {
    "PyEMD.EMD.EMD": EMD,
    "PyEMD.EEMD.EEMD": {"trials": 100, "noise_width": 0.05, "parallel": True, "separate_trends": False, "noise_kind": "normal"},
    "PyEMD.CEEMDAN.CEEMDAN": {"trials": 100, "epsilon": 0.005, "parallel": True, "noise_scale": 1, "noise_kind": "normal", "range_thr": 0.01,
                              "total_power_thr": 0.05, "beta_progress": True},
    "PyEMD.experimental.jitemd.JitEMD": {"spline_kind": "cubic", "extrema_detection": "simple"},
}
FIXED = {
    "PyEMD.EMD2d.EMD2D": ("mse_thr", "mean_thr", "FIXE", "FIXE_H", "MAX_ITERATION"),
    "PyEMD.BEMD.BEMD": ("mse_thr", "mean_thr", "FIXE", "FIXE_H", "MAX_ITERATION"),
    "PyEMD.EMD_matlab.EMD": ("splineKind", "nbsym", "FIXE", "FIXE_H", "MAX_ITERATION"),
}
SAMPLES = (0, 1, 2, 3, 5, 7, 10, 50, 100, 101, 1000, 5000)


def build(prog, cls, kw):
    I = Interp(prog)
    st = State(dict(I.state0.heap), {}, ())
    c = get_class(prog, cls)
    o = en.construct(I, st, c, kw=kw, symbolic=False)
    return I, st, c, o, getattr(I, "_dead", None) is st


def same(x, v):
    if isinstance(v, (bool, int, float)):
        if x.op == "bool":
            return bool(v) == x.args[0] if isinstance(v, bool) else None
        if x.op == "num":
            return Fraction(x.args[0]) == Fraction(str(v)) if not isinstance(v, bool) else Fraction(x.args[0]) == int(v)
        return False if x.op == "py" or x is NONE else None
    if x.op == "py" and isinstance(x.args[0], str):
        return x.args[0] == v
    return False if x.op in ("num", "bool") or x is NONE else None


def at_class(c):
    return "%s:%d %s" % (c.module.rel, c.node.lineno, c.qual)


def given(prog, rep, cls, k, default):
    nm = "%s(%s=...)" % (cls.split(".")[-1], k)
    v = sym("given")
    arr.RANK[v] = 0
    allowed = {v, app("int", v), app("float", v), app("bool", v), app("cast", v, py("float")), app("cast", v, py("int"))}
    I, st, c, o, dead = build(prog, cls, {k: V(v)} if not isinstance(default, str) else {k: V(py(k_word(k)))})
    at = at_class(c)
    a = st.heap[o.cid].attrs
    if dead:
        rep.bad(nm, R_GIVEN, at, "the documented option is refused whatever its value")
        return
    if k not in a:
        rep.undecided(nm, R_GIVEN, at, "no attribute %s" % k)
        return
    x = I.read(st, a[k])
    if isinstance(default, str):
        w = same(x, k_word(k))
        if w:
            rep.ok(nm, R_GIVEN, at, "%s = %s" % (k, t.show(x, 3)))
        elif w is False:
            rep.bad(nm, R_GIVEN, at, "%r becomes %s" % (k_word(k), t.show(x, 3)))
        else:
            rep.undecided(nm, R_GIVEN, at, t.show(x, 3)[:200])
        return
    if x in allowed or x.op == "truthy":
        rep.ok(nm, R_GIVEN, at, "%s = %s" % (k, t.show(x, 3)))
        return
    # not literally the given value: look for a value that is changed
    vals = [True, False] if isinstance(default, bool) else [t.q(s) for s in SAMPLES + ((-1, 0.5, 0.001, 0.9) if isinstance(default, float) else ())]
    for s in vals:
        I, st, c, o, dead = build(prog, cls, {k: V(TRUE if s is True else FALSE if s is False else num(s))})
        if dead or k not in st.heap[o.cid].attrs:
            continue
        y = I.read(st, st.heap[o.cid].attrs[k])
        if same(y, s) is False:
            rep.bad(nm, R_GIVEN, at, "the given value %s becomes %s" % (s, t.show(y, 3)))
            return
    if not any(z is v for z in t.walk(x)) and t.isconst(x):
        rep.bad(nm, R_GIVEN, at, "the given value is ignored: %s = %s" % (k, t.show(x, 3)))
        return
    rep.undecided(nm, R_GIVEN, at, "%s = %s" % (k, t.show(x, 3)[:200]))


def val(x):
    return TRUE if x is True else FALSE if x is False else py(x) if isinstance(x, str) else num(t.q(x) if not isinstance(x, float) else t.q(Fraction(str(x))))


def samples(k, default):
    if isinstance(default, bool):
        return [not default, default]
    if isinstance(default, str):
        return [k_word(k), default]
    return [3, 50, 1, 0, 2000] + ([0.5, 0.001] if isinstance(default, float) else [])


def together(prog, rep, cls, table):
    """all options given at once: each is still held as given"""
    nm = cls.split(".")[-1]
    kw = {}
    for k, d in table.items():
        if isinstance(d, str):
            kw[k] = V(py(k_word(k)))
        else:
            arr.RANK[sym("given." + k)] = 0
            kw[k] = V(sym("given." + k))
    I, st, c, o, dead = build(prog, cls, kw)
    at = at_class(c)
    for k, d in table.items():
        name = "%s(all options)(%s)" % (nm, k)
        a = st.heap[o.cid].attrs
        if dead or k not in a:
            rep.undecided(name, R_GIVEN, at, "no attribute %s" % k)
            continue
        x = I.read(st, a[k])
        v = sym("given." + k)
        if isinstance(d, str) and same(x, k_word(k)) or x in (v, app("int", v), app("float", v), app("bool", v), app("cast", v, py("float")), app("cast", v, py("int"))) or x.op == "truthy" and x.args[0] is v:
            rep.ok(name, R_GIVEN, at, "%s = %s" % (k, t.show(x, 3)))
            continue
        hit = None
        others = {y.args[0][6:] for y in t.walk(x) if y.op == "sym" and str(y.args[0]).startswith("given.")} - {k}
        for j in sorted(others) or sorted(set(table) - {k}):
            for vj in samples(j, table[j]):
                for vk in samples(k, d):
                    J, sj, _, oj, dj = build(prog, cls, {k: V(val(vk)), j: V(val(vj))})
                    if hit or dj or k not in sj.heap[oj.cid].attrs:
                        continue
                    y = J.read(sj, sj.heap[oj.cid].attrs[k])
                    if same(y, vk) is False:
                        hit = "with %s=%s the given %s=%s becomes %s" % (j, vj, k, vk, t.show(y, 3)[:80])
        rep.verdict("bad" if hit else "undecided", name, R_GIVEN, at, hit or "%s = %s" % (k, t.show(x, 3)[:200]))


def k_word(k):
    return {"extrema_detection": "parabol", "noise_kind": "uniform", "spline_kind": "akima"}[k]


def defaults(prog, rep, cls, table):
    I, st, c, o, dead = build(prog, cls, {})
    at = at_class(c)
    nm = cls.split(".")[-1]
    if dead:
        rep.bad(nm + "()", R_DEF, at, "cannot be constructed without options")
        return
    a = st.heap[o.cid].attrs
    inner = a.get("EMD")
    todo = [(nm, a, table)]
    if isinstance(inner, ORef):
        # an ensemble without ext_EMD uses an EMD with default options
        todo.append((nm + "().EMD", st.heap[inner.cid].attrs, EMD))
    for lab, at_, tab in todo:
        for k, v in tab.items():
            name = "%s default %s" % (lab, k)
            if k not in at_:
                rep.undecided(name, R_DEF, at, "no attribute %s" % k)
                continue
            x = I.read(st, at_[k])
            w = same(x, v)
            if w:
                rep.ok(name, R_DEF, at, "%s = %s" % (k, t.show(x, 3)))
            elif w is False:
                rep.bad(name, R_DEF, at, "%s = %s, documented default %r" % (k, t.show(x, 3), v))
            else:
                rep.undecided(name, R_DEF, at, "%s = %s" % (k, t.show(x, 3)[:200]))


def processes(prog, rep, cls):
    nm = cls.split(".")[-1]
    v = sym("given")
    arr.RANK[v] = 0
    for lab, kw, want in (("parallel, given", {"processes": V(num(3)), "parallel": V(TRUE)}, num(3)),
                          ("not parallel, omitted", {"parallel": V(FALSE)}, NONE),
                          ("parallel, one process", {"processes": V(num(1)), "parallel": V(TRUE)}, num(1))):
        name = "%s processes: %s" % (nm, lab)
        I, st, c, o, dead = build(prog, cls, kw)
        x = None if dead or "processes" not in st.heap[o.cid].attrs else I.read(st, st.heap[o.cid].attrs["processes"])
        if x is want:
            rep.ok(name, R_GIVEN, at_class(c), "processes = %s" % t.show(x, 2))
        elif dead or x is not None and (t.isconst(x) or x is NONE or x.op == "app" and "cpu_count" in str(x.args[0])):
            rep.bad(name, R_GIVEN, at_class(c), "processes = %s" % (t.show(x, 2) if x is not None else "refused"))
        else:
            rep.undecided(name, R_GIVEN, at_class(c), "processes = %s" % (t.show(x, 2)[:100] if x is not None else "?"))


def kept(prog, rep, f, names):
    par = f.cls.name in ("EEMD", "CEEMDAN")
    for p in ((False, True) if par else (None,)):
        name = f.qual + ("" if p is None else " parallel=%s" % p)

        def go():
            sa = None if p is None else {"parallel": V(TRUE if p else FALSE)}
            r = entries.run_public(prog, f, selfattrs=sa)
            rep.covered(r)
            if r.dead:
                rep.ok(name, R_KEEP, where(r), "no normal exit")
                return
            bad, und = [], []
            if r.self_ref is not None:
                look(r, r.st.heap[r.self_ref.cid].attrs, r.before["self"], names, "self.", bad, und)
                inner = r.before["self"].get("EMD")
                now = r.st.heap[r.self_ref.cid].attrs.get("EMD")
                if isinstance(inner, ORef):
                    if not (isinstance(now, ORef) and now.cid == inner.cid):
                        (bad if isinstance(now, ORef) else und).append("self.EMD")
                    else:
                        look(r, r.st.heap[inner.cid].attrs, r.before["heap"][inner.cid].attrs, EMD, "self.EMD.", bad, und)
            else:
                # plain functions that receive the object as an argument
                for c, cell in r.before["heap"].items():
                    if cell.kind == "obj" and cell.cls is not None and getattr(cell.cls, "qual", None) == f.cls.qual and c in r.st.heap:
                        look(r, r.st.heap[c].attrs, cell.attrs, names, "self.", bad, und)
            if not bad and r.self_ref is not None:
                for k in temporary(prog, r, names):
                    bad.append("%s is changed on the way and put back outside any `finally`: an exception in between leaves it changed" % k)
            if bad:
                for b in bad:
                    rep.bad(name + " changes " + b.split(" ")[0], R_KEEP, where(r), "after the call " + b)
            elif und:
                rep.undecided(name, R_KEEP, where(r), ", ".join(und)[:200])
            else:
                rep.ok(name, R_KEEP, where(r), "%d options unchanged" % len(names))
        rep.guarded(name, R_KEEP, go, limit=60)


def temporary(prog, r, names):
    """options stored more than once in the call without a store in a finally block"""
    import ast
    inner = r.before["self"].get("EMD")
    own = {r.self_ref.cid: ("self.", names)}
    if isinstance(inner, ORef):
        own[inner.cid] = ("self.EMD.", EMD)
    hit = {}
    for e in r.I.events:
        if e.kind == "setattr" and e.data and e.data[0] in own and e.data[1] in own[e.data[0]][1]:
            hit.setdefault(own[e.data[0]][0] + e.data[1], {})[id(e.node)] = e.node
    if not hit:
        return []
    safe = set()
    for m in {f.module for f in prog.functions()}:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                for b in n.finalbody:
                    safe |= {id(x) for x in ast.walk(b)}
    return sorted(k for k, ns in hit.items() if len(ns) > 1 and not any(i in safe for i in ns))


def look(r, now, was, names, pre, bad, und):
    for k in names:
        if k not in was:
            continue
        v, o = now.get(k), was[k]
        if v is o:
            continue
        try:
            x, y = r.I.read(r.st, v), r.I.read(r.st, o)
        except Exception:
            und.append(pre + k)
            continue
        if x is y or history.idempotent(x, y):
            continue
        if x.op == "ite" or any(z.op in ("havoc",) for z in t.walk(x)):
            leaves = [z for z in gates(x)]
            if any(z is not y and not history.idempotent(z, y) and not any(w.op == "havoc" for w in t.walk(z)) for z in leaves):
                bad.append("%s%s is %s" % (pre, k, t.show(x, 3)[:120]))
            elif any(z is not y for z in leaves):
                und.append(pre + k)
            continue
        if x.op == "phi":
            ph = r.I.phis.get(x)
            und.append(pre + k) if ph is None else bad.append("%s%s is changed in a loop" % (pre, k))
            continue
        bad.append("%s%s is %s" % (pre, k, t.show(x, 3)[:120]))


def gates(x):
    if x.op == "ite":
        yield from gates(x.args[1])
        yield from gates(x.args[2])
    else:
        yield x


def check(prog, rep, tier):
    for cls, table in CLASSES.items():
        for k, d in table.items():
            rep.guard("%s(%s=...)" % (cls.split(".")[-1], k), R_GIVEN, lambda: given(prog, rep, cls, k, d))
        rep.guard(cls.split(".")[-1] + " all options", R_GIVEN, lambda: together(prog, rep, cls, table))
        rep.guard(cls.split(".")[-1] + " defaults", R_DEF, lambda: defaults(prog, rep, cls, table))
    for cls in ("PyEMD.EEMD.EEMD", "PyEMD.CEEMDAN.CEEMDAN"):
        rep.guard(cls.split(".")[-1] + " processes", R_GIVEN, lambda: processes(prog, rep, cls))
    names = dict({k: tuple(v) for k, v in CLASSES.items()}, **FIXED)
    for f in entries.public_functions(prog):
        if f.cls is not None and f.cls.qual in names and f.name != "__init__":
            kept(prog, rep, f, names[f.cls.qual])
