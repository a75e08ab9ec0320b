from .common import *
from .small import Small, OutOfTable, table, rowfun, pointwise, bc, thresholds
from fractions import Fraction
import numpy as np
import re

EXPLANATION = ("Every drawing call is extracted with the panel, the abscissae, the ordinates and the label it is given, as terms of the inputs; for one, two and three components (and both residue settings, both derivative "
               "orders, with and without filter) the resulting list of panels is read off these terms entry by entry and compared with the documented picture.")
R_ROWS = "one panel per component, plus one for the residue when it is included"
R_DATA = "panel i shows component i over the given times (sample numbers by default), the last panel the residue when included"
R_LAB = "every panel is labelled with the number of its component"
R_OWN = "explicitly passed components, residue and times take precedence over those of the decomposition object"
R_FREQ = "panel i shows the derivative of the unwrapped Hilbert phase of component i divided by 2 pi, filtered as requested"
R_REF = "requests without components or residue, and filter intensities outside (-1/2, 1/2), are refused"
R_INST = "components and residue of the decomposition object are its first and second result"
M = "PyEMD.visualisation.Visualisation."
N = 8


def stubs(prog):
    from sa.runs import bindargs
    d = {}
    for q in ("filt6", "pade6"):
        f = get_func(prog, "PyEMD.compact." + q)

        def h(I, st, args, kw, node, q=q, f=f):
            env = bindargs(I, st, f, args, kw, node)
            x = app(q, *[I.read(st, v) for v in env.values()])
            arr.RANK[x] = 1
            return I.newarr(st, x, 1, node=node)
        d["PyEMD.compact." + q] = h
    return d


def run(prog, rep, qual, kw, own=()):
    def setup(I, st, o):
        c = st.heap[o.cid]
        at = dict(c.attrs)
        for k, v in own:
            at[k] = v(I, st)
        st.heap[o.cid] = c.upd(attrs=at)
    r = enter(prog, M + qual, ctor=dict(kw={"emd_instance": V(NONE)}), gen=False, kw=kw, setup=setup, opaque=stubs(prog))
    rep.covered(r)
    return r


class Picture:
    """The panels drawn for R components."""

    def __init__(self, r, R, env, facts):
        self.r, self.R = r, R
        self.rows = None
        self.lines, self.labels = {}, {}
        base = dict(env)
        for e in r.I.events:
            if e.kind != "call" or not (e.name.startswith("m:") or "subplots" in e.name or "subplot" in e.name or "figure" in e.name):
                continue
            if e.name not in ("m:plot", "m:set_ylabel") and "subplots" not in e.name:
                if e.name in ("m:set_title", "m:set_xlabel", "m:tight_layout", "m:suptitle", "m:grid", "m:legend", "m:set_xlim"):
                    continue
                if e.name.startswith("m:"):
                    continue
                raise Unknown("drawing through " + e.name)
            data = [x for x in e.data if isinstance(x, t.Term)]
            its = []
            for x in list(data) + [g for g, _ in e.guard]:
                for y in t.walk(x):
                    if y.op == "iota" and y not in its:
                        its.append(y)
            if len(its) > 1:
                raise Unknown("nested drawing loops")
            if its:
                L = next((l for l in r.I.loops.values() if l["iota"] is its[0]), None)
                if L is None or L["n"] is None:
                    raise Unknown("a drawing loop of unknown length")
                if L["breaks"] or L["rets"]:
                    raise Unknown("a drawing loop left early")
                self.sizes(base, [L["n"]] + [g for g, _ in e.guard])
                n = Small(base, facts).integer(L["n"])
                envs = [dict(base, **{}) | {its[0]: num(k)} for k in range(n)]
            else:
                envs = [base]
            for env1 in envs:
                s = Small(env1, facts)
                if all(s.truth(self.inst(g, env1)) for g, _ in e.guard):
                    self.event(e.name, data, s)

    def sizes(self, env, xs):
        """the figure's list of panels has as many entries as panels were asked for"""
        for x in xs:
            for y in t.walk(x):
                if y.op == "app" and y.args[0] in ("len", "rows", "size") and len(y.args) == 2 and y not in env and self.rows:
                    z = y.args[1]
                    if z.op == "py" and str(z.args[0]).startswith("val:Ext") or z.op == "idx" and z.args[0].op == "app" and "subplots" in str(z.args[0].args[0]):
                        env[y] = num(self.rows * self.cols)

    @staticmethod
    def inst(g, env):
        m = {k: v for k, v in env.items() if k.op == "iota"}
        return t.subst(g, m) if m else g

    def event(self, name, data, s):
        if "subplots" in name:
            pos, kw = s.kwargs(data)
            if self.rows is not None:
                raise Unknown("several figures")
            rows = pos[0] if pos else kw.get("nrows", ONE)
            cols = pos[1] if len(pos) > 1 else kw.get("ncols", ONE)
            self.rows, self.cols = s.integer(rows), s.integer(cols)
            self.kept = "squeeze" in kw
            return
        p = data[0]
        if p.op == "idx":
            i = p.args[1]
        elif p.op == "app" and p.args[0] == "getitem":
            i = p.args[-1]
        else:
            raise Unknown("which panel: " + t.show(p, 2)[:80])
        i = s.integer(i)
        if p.op == "idx" and self.rows == self.cols == 1 and not self.kept and p.args[0].op == "idx" and p.args[0].args[0].op == "app" and "subplots" in str(p.args[0].args[0].args[0]):
            import ast
            for f in self.r.I.prog.functions():
                if f.module.name == "PyEMD.visualisation" and any(isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] in ("atleast_1d", "array", "asarray") and any("ax" in ast.unparse(z) for z in c.args) for c in ast.walk(f.node)):
                    raise Unknown("whether the single panel was wrapped in an array")
            raise OutOfTable("with a single panel subplots returns the panel itself, which cannot be indexed")
        i = i + self.rows if i < 0 else i
        if name == "m:set_ylabel":
            self.labels[i] = text(data[1], s)
            return
        pos, kw = s.kwargs(data[1:])
        if len(pos) == 1:
            xs, ys = None, s.ev(pos[0])
        else:
            xs, ys = s.ev(pos[0]), s.ev(pos[1])
        self.lines.setdefault(i, []).append((xs, ys))


def text(x, s):
    if x.op in ("py", "str") and isinstance(x.args[0], str):
        return x.args[0]
    if x.op == "app" and x.args[0] == "str":
        a = list(x.args[1:])
        if len(a) >= 2 and a[1].op in ("py", "str") and a[1].args[0] == "format":
            f = text(a[0], s)
            try:
                return f.format(*[text(y, s) for y in a[2:]])
            except (IndexError, KeyError, ValueError):
                raise Unknown("label format")
        if a and "%" in text(a[0], s):
            rest = [text(y, s) for y in a[1:]]
            return re.sub(r"%[dsir]", lambda m: rest.pop(0) if rest else m.group(0), text(a[0], s))
        return "".join(text(y, s) for y in a)
    return str(s.integer(x))


def same(a, b):
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
        return False
    return all(u is v or t.is_zero(t.sub(u, v)) for u, v in zip(a.reshape(-1), b.reshape(-1)))


def judge(rep, r, name, env, facts, want, R):
    """want: list of (xs, ys, label pattern) by panel"""
    w = where(r)
    if r.dead:
        rep.bad(name, R_DATA, w, "the request always ends in an error")
        return
    try:
        p = Picture(r, R, env, facts)
    except Unknown as e:
        rep.undecided(name, R_DATA, w, e)
        return
    except OutOfTable as e:
        rep.bad(name, R_DATA, w, e)
        return
    except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
        rep.undecided(name, R_DATA, w, "no reading of the drawing calls: %s" % e)
        return
    if p.rows is None:
        rep.undecided(name, R_ROWS, w, "no subplots call found")
        return
    rep.verdict("ok" if (p.rows, p.cols) == (len(want), 1) else "bad", name + ": panels", R_ROWS, w, "%d x %d panels for %d curves" % (p.rows, p.cols, len(want)))
    rule = want[0][3]
    for i, (xs, ys, lab, _) in enumerate(want):
        ls = p.lines.get(i, [])
        if len(ls) != 1:
            rep.bad("%s: curve %d" % (name, i + 1), rule, w, "%d curves are drawn in panel %d" % (len(ls), i))
            continue
        x, y = ls[0]
        if x is None:
            x = np.array([num(k) for k in range(len(y))], dtype=object)
        bad = "abscissae" if not same(x, xs) else "ordinates" if not same(y, ys) else None
        rep.verdict("bad" if bad else "ok", "%s: curve %d" % (name, i + 1), rule, w, "%s of panel %d are not the documented ones" % (bad, i) if bad else "%d points compared" % len(ys))
        l = p.labels.get(i)
        rep.verdict("ok" if l is not None and re.fullmatch(lab, l) else "bad", "%s: label %d" % (name, i + 1), R_LAB, w, "label is %r" % (l,))
    extra = set(p.lines) - set(range(len(want)))
    if extra:
        rep.bad(name + ": further panels", R_DATA, w, "curves in panels %s" % sorted(extra))


def counts(r):
    """numbers of components: 1 to 3, and around every number at which a condition may change"""
    out = {1, 2, 3}
    for e in r.I.events:
        for x in list(e.data if isinstance(e.data, (tuple, list)) else []) + [g for g, _ in e.guard]:
            if isinstance(x, t.Term):
                out |= set(thresholds(x, top=32))
    for l in r.I.loops.values():
        if isinstance(l.get("n"), t.Term):
            out |= set(thresholds(l["n"], top=32))
    return sorted(out)


def check(prog, rep, tier):
    LAB = [r"\D*%d\D*" % (i + 1) for i in range(40)]
    RES = r"(?i)\s*(res|r$)\D*"
    samples = np.array([num(k) for k in range(N)], dtype=object)
    tt = np.array([t.add(sym("t0"), t.mul(num(k), sym("h"))) for k in range(N)], dtype=object)
    for own in (False, True):
        for res in (True, False):
            for given in (True, False):
                kw, mine = {}, []
                kw["include_residue"] = V(TRUE if res else FALSE)
                if own:
                    mine = [("imfs", arrin("own_imfs", 2)), ("residue", arrin("own_res", 1))]
                kw["imfs"] = arrin("imfs", 2)
                kw["residue"] = arrin("res", 1)
                if given:
                    kw["t"] = arrin("tt", 1)
                r = run(prog, rep, "plot_imfs", kw, mine)
                for R in counts(r):
                    e = {sym("imfs"): table("imf", R, N), sym("res"): table("res", N), sym("tt"): tt, sym("own_imfs"): table("own", R + 1, N), sym("own_res"): table("ownres", N)}
                    xs = tt if given else samples
                    want = [(xs, e[sym("imfs")][i], LAB[i], R_OWN if own else R_DATA) for i in range(R)] + ([(xs, e[sym("res")], RES, R_OWN if own else R_DATA)] if res else [])
                    judge(rep, r, "plot_imfs(%d components%s%s%s)" % (R, ", residue" if res else "", ", times" if given else "", ", object" if own else ""), e, {}, want, R)
    # nothing passed: the object's own
    mine = [("imfs", arrin("own_imfs", 2)), ("residue", arrin("own_res", 1))]
    r = run(prog, rep, "plot_imfs", {}, mine)
    for R in counts(r):
        e = {sym("own_imfs"): table("own", R, N), sym("own_res"): table("ownres", N)}
        want = [(samples, e[sym("own_imfs")][i], LAB[i], R_OWN) for i in range(R)] + [(samples, e[sym("own_res")], RES, R_OWN)]
        judge(rep, r, "plot_imfs(%d own components)" % R, e, {}, want, R)
    for order in (False, True, None):
        for alpha in (False, True):
            for own in (False, True):
                kw = dict(t=arrin("tt", 1), order=V(TRUE if order else FALSE))
                if order is None:
                    del kw["order"]
                if alpha:
                    kw["alpha"] = scin("alpha")
                if not own:
                    kw["imfs"] = arrin("imfs", 2)
                r = run(prog, rep, "plot_instant_freq", kw, [("imfs", arrin("own_imfs", 2))] if own else [])
                facts = {mk("is", sym("alpha"), NONE): False}
                for R in counts(r):
                    tab = table("imf", R, N)
                    e = {sym("own_imfs" if own else "imfs"): tab, sym("tt"): tt}
                    want = [(tt, freq(tab[i], order, alpha), LAB[i], R_FREQ) for i in range(R)]
                    judge(rep, r, "plot_instant_freq(%d components%s%s%s)" % (R, ", high order" if order else ", order by default" if order is None else "", ", filter" if alpha else "", ", object" if own else ""), e, facts, want, R)
    refuse(prog, rep)
    instance(prog, rep)


def freq(row, order, alpha):
    al = sym("alpha")
    z = rowfun("hilbert", row, 0)
    if alpha:
        re_ = rowfun("filt6", row, 0, al)
        im = rowfun("filt6", np.array([pointwise("imag", y) for y in z] + [None], dtype=object)[:-1], 0, al)
        z = bc(t.add, re_, bc(t.mul, app("imagunit"), im))
    ph = rowfun("unwrap", np.array([pointwise("angle", y) for y in z] + [None], dtype=object)[:-1], 0)
    if alpha:
        ph = rowfun("filt6", ph, 0, al)
    pi2 = t.mul(num(2), app("pi"))
    if order:
        f = bc(t.div, rowfun("pade6", ph, 0, sym("h")), pi2)
    else:
        d = bc(t.div, bc(t.sub, ph[1:], ph[:-1]), t.mul(pi2, sym("h")))
        f = np.concatenate([d, d[-1:]])
    return rowfun("filt6", f, 0, al) if alpha else f


def refuse(prog, rep):
    def case(name, qual, kw, dead, own=()):
        r = run(prog, rep, qual, kw, own)
        rep.verdict("ok" if bool(r.dead) == dead else "bad", name, R_REF, where(r), ("answered" if dead else "refused") if bool(r.dead) != dead else "")
    case("plot_imfs without components", "plot_imfs", {}, True)
    case("plot_imfs without residue", "plot_imfs", dict(imfs=arrin("imfs", 2)), True)
    case("plot_imfs without residue, not asked for", "plot_imfs", dict(imfs=arrin("imfs", 2), include_residue=V(FALSE)), False)
    case("plot_instant_freq without components", "plot_instant_freq", dict(t=arrin("tt", 1)), True)
    for a, dead in ((Fraction(1, 2), True), (Fraction(-1, 2), True), (Fraction(3, 4), True), (Fraction(-2), True), (Fraction(0), False), (Fraction(49, 100), False), (Fraction(-49, 100), False)):
        case("plot_instant_freq with alpha = %s" % a, "plot_instant_freq", dict(t=arrin("tt", 1), imfs=arrin("imfs", 2), alpha=V(num(a))), dead)


def instance(prog, rep):
    f = get_func(prog, M + "__init__")
    I = Interp(prog, None)
    st = State(dict(I.state0.heap), {}, ())
    from sa.entry import construct
    o = construct(I, st, get_class(prog, M[:-1]), kw={"emd_instance": V(sym("emd"))})
    c = st.heap[o.cid]
    w = "%s:%d %s" % (f.module.rel, f.node.lineno, f.qual)
    got = []
    for k in ("imfs", "residue"):
        v = c.attrs.get(k)
        x = I.read(st, v) if v is not None else None
        got.append(x)
    for k, x, n in zip(("imfs", "residue"), got, (0, 1)):
        if x is None:
            rep.undecided("Visualisation(object).%s" % k, R_INST, w, "no such attribute")
            continue
        while x.op == "ite":
            x = x.args[2] if x.args[0] is mk("is", sym("emd"), NONE) else x.args[1]
        ok = x.op == "idx" and x.args[1] is num(n) and "get_imfs_and_residue" in t.show(x.args[0], 4)
        swapped = x.op == "idx" and x.args[1].op == "num" and "get_imfs_and_residue" in t.show(x.args[0], 4)
        rep.verdict("ok" if ok else "bad" if swapped else "undecided", "Visualisation(object).%s" % k, R_INST, w, t.show(x, 3)[:200])
