from .common import *
import statistics

EXPLANATION = ("Value numbering of the ensemble accumulator through the trial loop and the per-component loop: every component of every trial is "
               "appended under its own order (never dropped, never moved), the returned row of an order is the sum of the entries of that order "
               "divided by their number, and count / standard deviation / mean accessors are the same statistics of the same entries.  For CEEMDAN "
               "the recurrence remainder - mean over all trials of the local mean is compared as a polynomial.")
R_MEAN = "row of order k = mean over the entries collected for order k"
R_ACC = "ensemble_mean / ensemble_count / ensemble_std are the statistics of the collected entries"
R_COL = "every component of every trial is collected under its own order; with separate_trends the trend last"
R_REC = "CEEMDAN component = remainder minus the mean over all trials of the local mean"


def entries(body, n):
    """(dictionary, entry) the body of a per-order comprehension refers to."""
    out = {(y.args[1], y) for y in t.walk(body) if y.op == "app" and y.args[0] == "dget" and any(z.op == "bv" for z in t.walk(y.args[2]))}
    return out


class NoValue(Exception):
    pass


STATS = {"median": statistics.median, "nanmedian": statistics.median, "mean": statistics.fmean, "average": statistics.fmean, "nanmean": statistics.fmean, "std": statistics.pstdev,
         "nanstd": statistics.pstdev, "var": statistics.pvariance, "max": max, "min": min, "sum": sum, "ptp": lambda v: max(v) - min(v), "size": len, "len": len}


class At:
    """values of terms when the collection G holds the numbers vals (one sample of each entry)"""

    def __init__(self, G, vals):
        self.G, self.vals = G, vals

    def truth(self, c):
        op, a = c.op, c.args
        if op in ("lt0", "le0", "eq0"):
            v = self.ev(a[0])
            return v < 0 if op == "lt0" else v <= 0 if op == "le0" else v == 0
        if op == "not":
            return not self.truth(a[0])
        if op in ("and", "or"):
            return (all if op == "and" else any)(self.truth(y) for y in a)
        if op == "bool":
            return bool(a[0])
        if op == "ite":
            return self.truth(a[1] if self.truth(a[0]) else a[2])
        raise NoValue(t.show(c, 2)[:80])

    def ev(self, y):
        op, a = y.op, y.args
        if op == "num":
            return float(a[0])
        if op == "poly":
            s = 0.0
            for mono, c in a[0]:
                v = float(c)
                for z, e in mono:
                    v *= self.ev(z) ** int(e)
                s += v
            return s
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if op == "sumrows" and a[0] is self.G:
            return float(sum(self.vals))
        if op == "app":
            f, b = str(a[0]).replace("np.", ""), a[1:]
            if f in ("len", "size") and b == (self.G,):
                return float(len(self.vals))
            f = f[:-1] if f.endswith("0") else None
            if f in STATS and b == (self.G,):
                return float(STATS[f](self.vals))
            if f in ("std", "var") and len(b) == 2 and b[0] is self.G and b[1].op == "num":
                n = len(self.vals)
                v = statistics.pvariance(self.vals) * n / (n - float(b[1].args[0]))
                return v if f == "var" else v ** 0.5
            if a[0] in ("cast", "opt"):
                return self.ev(b[-1])
        raise NoValue(t.show(y, 2)[:80])


SAMPLES = tuple([((k * 37 + 11 * n + k * k * 5) % 23) * 0.5 - 4.0 for k in range(n)] for n in range(1, 8))


def different(x, w, G):
    """a number of entries and values at which the row x differs from w, or None"""
    for vals in SAMPLES:
        try:
            b = At(G, vals).ev(w)
            a = At(G, vals).ev(x)
        except ZeroDivisionError:
            return "undefined for %d entries" % len(vals)
        except (NoValue, ArithmeticError, ValueError, TypeError, IndexError):
            continue
        if isinstance(a, complex) or abs(a - b) > 1e-6 * (1 + abs(b)):
            return "%.4g instead of %.4g for the entries %s" % (a, b, vals)
    return None


def left_out(r, x):
    """number of entries of an order for which the loop over the orders appends no row, or None"""
    P = r.I.phis.get(x) if x.op == "phi" else None
    if not P or P["init"] is not mk("stack") or P["back"].op != "ite":
        return None
    c, a, b = P["back"].args
    if b is x:
        keep = True
    elif a is x:
        keep = False
    else:
        return None
    gs = {y for y in t.walk(c) if y.op == "app" and y.args[0] == "dget"}
    gs = {y for y in gs if not any(z is not y and any(w is y for w in t.walk(z)) for z in gs)}
    if len(gs) != 1:
        return None
    for vals in SAMPLES:
        try:
            if At(next(iter(gs)), vals).truth(c) != keep:
                return len(vals)
        except (NoValue, ArithmeticError, ValueError, TypeError, IndexError):
            continue
    return None


def stat(rep, name, rule, r, x, want, what):
    rep.covered(r)
    if x.op != "comp":
        bad = left_out(r, x)
        if bad:
            rep.bad(name, rule, where(r), "an order whose collection holds %d entries has no row" % bad)
            return None
        rep.undecided(name, rule, where(r), "result %s" % t.show(x, 2)[:200])
        return None
    n, body = x.args[0], x.args[1]
    es = entries(body, n)
    if len(es) != 1:
        rep.undecided(name, rule, where(r), "%d collections in %s" % (len(es), t.show(body, 3)[:200]))
        return None
    (D, G), = es
    key = G.args[2]
    if not (key.op == "app" and key.args[0] == "dkey" and key.args[1] is D and key.args[2].op == "bv"):
        rep.undecided(name, rule, where(r), "order %s" % t.show(key, 3)[:200])
        return D
    if n is not app("len", D):
        rep.undecided(name, rule, where(r), "number of orders %s" % t.show(n, 3)[:200])
        return D
    w = want(G)
    if body is w or t.is_zero(t.sub(body, w)):
        rep.ok(name, rule, where(r), "%s of the collected entries, per order" % what)
    elif different(body, w, G):
        rep.bad(name, rule, where(r), "row is %s instead of the %s of the entries: %s" % (t.show(t.subst(body, {G: sym("entries")}), 5)[:200], what, different(body, w, G)))
    else:
        rep.undecided(name, rule, where(r), "row %s" % t.show(body, 4)[:200])
    return D


def mean(G):
    return t.mul(t.inv(app("len", G)), mk("sumrows", G))


def moved(P):
    m = app("dpop", P, num(-1))
    return app("dstore", m, app("len", m), app("dget", P, num(-1)))


def keyed(x, P, given):
    """Where each collected order ends up, for these collected orders: {order: order it was collected under}, or None."""
    def go(y):
        if y is P:
            return dict(given)
        if y.op == "ite":
            return go(y.args[1]) if cond(y.args[0]) else go(y.args[2])
        if y.op == "app" and y.args[0] == "dpop":
            d = dict(go(y.args[1]))
            d.pop(key(y.args[2]))
            return d
        if y.op == "app" and y.args[0] == "dstore":
            d = dict(go(y.args[1]))
            d[key(y.args[2])] = entry(y.args[3])
            return d
        if y.op == "app" and y.args[0] in ("dict", "dictof") and len(y.args) == 2:
            return go(y.args[1])
        raise KeyError

    def entry(y):
        if y.op == "app" and y.args[0] == "dget":
            return go(y.args[1])[key(y.args[2])]
        if y.op == "idx" and y.args[1].op == "slice" and y.args[1].args != (NONE, NONE, NONE):
            return ("part of", entry(y.args[0]))
        raise KeyError

    def cond(c):
        if c.op == "bool":
            return c.args[0]
        if c.op == "not":
            return not cond(c.args[0])
        if c.op in ("and", "or"):
            vs = [cond(z) for z in c.args]
            return all(vs) if c.op == "and" else any(vs)
        if c.op in ("eq0", "lt0", "le0"):
            v = key(c.args[0])
            return v == 0 if c.op == "eq0" else v < 0 if c.op == "lt0" else v <= 0
        if c.op in ("in", "app") and (c.op == "in" or c.args[0] == "in"):
            a = c.args[-2:]
            return key(a[0]) in go(a[1])
        raise KeyError

    def key(y):
        if y.op == "num":
            return int(y.args[0])
        if y.op == "poly":
            return sum(int(c) * prod(key(z) ** e for z, e in m) for m, c in y.args[0])
        if y.op == "app" and len(y.args) == 2:
            f = str(y.args[0])
            if f == "len":
                return len(go(y.args[1]))
            if f in ("np.max", "max", "np.min", "min"):
                z = y.args[1]
                if z.op == "app" and z.args[0] in ("dkeys", "keys", "list") and len(z.args) == 2:
                    z = z.args[1]
                return (max if f.endswith("max") else min)(go(z))
        raise KeyError

    def prod(vs):
        out = 1
        for v in vs:
            out *= v
        return out
    try:
        return go(x)
    except (KeyError, ValueError, TypeError):
        return None


def trial_result(x):
    return any(y.op == "app" and str(y.args[0]) in ("EMD.emd", "EMD.imfs") for y in t.walk(x))


def empties(r, c, keep, P):
    """c says that the trial has no component and nothing but components would have been collected."""
    if not (keep.op == "phi" and r.I.phis.get(keep, {}).get("init") is P):
        return False
    n = r.I.loops.get(keep.args[0], {}).get("n")
    return n is not None and (c is t.eq0(n) or c is t.le0(n) or c is t.not_(t.lt0(t.neg(n))))


def collect(rep, name, r, D, sep):
    ph = [y for y in {D} | set(t.walk(D)) if y.op == "phi" and r.I.phis.get(y, {}).get("init") is app("dict")] if True else []
    ph = list(dict.fromkeys(ph))
    if len(ph) != 1:
        rep.undecided(name, R_COL, where(r), "%d collecting loops" % len(ph))
        return
    P = ph[0]
    mv = moved(P)
    has = app("in", num(-1), P)
    if D is not P and D is not t.ite(mk("in", num(-1), P), mv, P) and not (D.op == "ite" and D.args[1] is mv and D.args[2] is P) and D is not mv:
        for keys in ((0,), (0, -1), (0, 1, -1), (0, 1, 2, 3, -1), (-1,)):
            d = keyed(D, P, {k: k for k in keys})
            if d is None:
                break
            want = {k: k for k in keys if k >= 0}
            if -1 in keys:
                want[len(keys) - 1] = -1
            if d != want and d != {k: k for k in keys}:
                rep.bad(name, R_COL, where(r), "entries collected under the orders %s end up as %s (order: collected as)" % (sorted(keys), d))
                return
        rep.undecided(name, R_COL, where(r), "collection rearranged: %s" % t.show(D, 4)[:200])
        return
    if sep and D is P:
        rep.bad(name, R_COL, where(r), "the separated trends stay under the order -1 in front of the components")
        return
    key = P.args[0]
    L = r.I.loops.get(key, {})
    wh = "%s (loop %s)" % (where(r), key)
    n = L.get("n")
    if n is None:
        rep.undecided(name, R_COL, wh, "trial loop not counted")
        return
    if n is not sym("self.trials"):
        (rep.undecided if unknown_atoms(n) else rep.bad)(name, R_COL, wh, "the results of %s trials are collected" % t.show(n, 3))
        return
    back = r.I.phis[P]["back"]
    # which updates happen in one trial
    trend, comps = [], []
    x = back
    while x is not P:
        i = r.I.phis.get(x) if x.op == "phi" else None
        if i is not None:
            L2 = r.I.loops.get(x.args[0], {})
            b = i["back"]
            if b.op == "app" and b.args[0] == "dappend" and b.args[1] is x:
                comps.append((b.args[2], b.args[3], L2.get("n"), x.args[0]))
                x = i["init"]
                continue
            if b.op == "ite" and any(c is x for c in b.args[1:]) and not unknown_atoms(b.args[0]):
                rep.bad(name, R_COL, wh, "a component is not collected when %s" % t.show(b.args[0] if b.args[1] is x else t.not_(b.args[0]), 4)[:200])
                return
            if b.op == "app" and b.args[0] == "dstore" and b.args[1] is x and not any(y is x for y in t.walk(b.args[3])):
                rep.bad(name, R_COL, wh, "a component replaces what earlier trials collected")
                return
            rep.undecided(name, R_COL, wh, "per-component update %s" % t.show(b, 4)[:200])
            return
        if x.op == "app" and x.args[0] == "dappend":
            (trend if x.args[2] is num(-1) else comps).append((x.args[2], x.args[3], None, None))
            x = x.args[1]
            continue
        if x.op == "ite" and (x.args[1] is P or x.args[2] is P):
            c = x.args[0] if x.args[1] is P else t.not_(x.args[0])
            keep = x.args[2] if x.args[1] is P else x.args[1]
            if empties(r, c, keep, P):
                x = keep
                continue
            rep.bad(name, R_COL, wh, "a whole trial is left out when %s" % t.show(c, 4)[:200])
            return
        rep.undecided(name, R_COL, wh, "per-trial update %s" % t.show(x, 4)[:200])
        return
    if not comps:
        rep.bad(name, R_COL, wh, "the components of a trial are not collected")
        return
    for k, v, n2, key2 in comps:
        if key2 is None:
            rep.undecided(name, R_COL, wh, "collected entry %s" % t.show(v, 3)[:200])
            return
        it = mk("iota", key2)
        off = t.sub(k, it)
        if any(y is it for y in t.walk(off)):
            if k.op == "num":
                rep.bad(name, R_COL, wh, "all components are collected under the same order %s" % t.show(k, 2))
            else:
                rep.undecided(name, R_COL, wh, "order %s" % t.show(k, 3)[:200])
            return
        rows = [v]
        if v.op == "ite":
            rows = list(v.args[1:])
        base = set()
        for y in rows:
            if y.op != "idx" or y.args[1] is not it:
                (rep.undecided if not trial_result(y) or unknown_atoms(y) or True else rep.bad)(name, R_COL, wh, "entry %s" % t.show(y, 3)[:200])
                return
            base.add(y.args[0])
        if not all(trial_result(b) for b in base):
            rep.bad(name, R_COL, wh, "the entries are not components of the trial: %s" % t.show(rows[0], 3)[:200])
            return
        R = base.pop() if len(base) == 1 else None
        if R is not None and n2 is not app("len", R):
            if n2 is None or unknown_atoms(n2):
                rep.undecided(name, R_COL, wh, "number of collected components %s" % t.show(n2, 3)[:200])
            else:
                rep.bad(name, R_COL, wh, "%s components of a trial are collected instead of all" % t.show(n2, 4)[:200])
            return
    if sep:
        if not trend:
            rep.bad(name, R_COL, wh, "separated trends are not collected")
            return
        v = trend[0][1]
        lv = list(v.args[1:]) if v.op == "ite" else [v]
        okk = all(any(y.op == "app" and y.args[0] in ("EMD.residue", "EMD.imfs") for y in t.walk(z)) for z in lv)
        if not okk:
            rep.undecided(name, R_COL, wh, "trend entry %s" % t.show(v, 3)[:200])
            return
    elif trend:
        rep.bad(name, R_COL, wh, "a trend is collected although trends are not separated")
        return
    rep.ok(name, R_COL, wh, "self.trials trials, every row under its own index%s" % (", trend appended last" if sep else ""))


def eemd(prog, rep, sep, par):
    nm = "EEMD separate_trends=%s parallel=%s" % (sep, par)
    r = runs.eemd(prog, parallel=par, T="arr", selfattrs={"noise_kind": V(py("normal")), "separate_trends": V(TRUE if sep else FALSE)})
    D = stat(rep, nm + " returned rows", R_MEAN, r, r.returned, mean, "mean")
    if D is None:
        return
    collect(rep, nm + " collection", r, D, sep)
    if par:
        return
    for m, w, what in (("ensemble_mean", mean, "mean"), ("ensemble_count", lambda G: app("len", G), "number"), ("ensemble_std", lambda G: app("std0", G), "standard deviation")):
        def go():
            x = en.call_method(r, m)
            D2 = stat(rep, "%s %s" % (nm, m), R_ACC, x, x.returned, w, what)
            if D2 is not None and D2 is not D:
                rep.undecided("%s %s source" % (nm, m), R_ACC, where(x), "statistics of another collection")
        rep.guarded("%s %s" % (nm, m), R_ACC, go)

    def allimfs():
        x = en.call_method(r, "all_imfs")
        if x.returned is D:
            rep.ok(nm + " all_imfs", R_ACC, where(x), "the collected entries")
        else:
            rep.undecided(nm + " all_imfs", R_ACC, where(x), t.show(x.returned, 3)[:200])
    rep.guarded(nm + " all_imfs", R_ACC, allimfs)


def skipped(r, new):
    """a number of rows of a trial's result for which the trial's local mean is not added"""
    for q in {y for y in t.walk(new) if y.op == "phi"}:
        b = r.I.phis.get(q, {}).get("back")
        if b is None or b.op != "ite" or not any(x is q for x in b.args[1:]) or not trial_result(b):
            continue
        c = b.args[0]
        rows = {y for y in t.walk(c) if y.op == "app" and y.args[0] in ("len", "dim") and y.args[1].op == "app" and y.args[1].args[0] == "EMD.emd"}
        for k in (1, 2):
            v = t.subst(c, {y: num(k) for y in rows if y.args[0] == "len"})
            if v.op == "bool" and b.args[1 if v.args[0] else 2] is q:
                return "a trial whose result has %d row%s is left out of the mean" % (k, "s" * (k > 1))
    return None


def ceemdan(prog, rep, par, prog_on):
    nm = "CEEMDAN parallel=%s" % par
    r = runs.ceemdan(prog, parallel=par, T="arr", selfattrs={"noise_kind": V(py("normal")), "beta_progress": V(FALSE)})
    rep.covered(r)
    rows = [(p, i) for p, i in r.I.phis.items() if i.get("back") is not None and i["back"].op == "stack" and any(y is p for y in t.walk(r.returned))]
    if len(rows) != 1:
        rep.undecided(nm, R_REC, where(r), "%d component loops" % len(rows))
        return
    p, i = rows[0]
    TR = sym("self.trials")
    if len(i["back"].args) != 2 or i["back"].args[0] != ("mat", p) or i["back"].args[1][0] != "row":
        rep.undecided(nm + " later components", R_REC, where(r), "components %s" % t.show(i["back"], 3)[:200])
        return
    new = i["back"].args[1][1]
    sums = [y for y in t.walk(new) if y.op == "sumover"]
    sums = [y for y in sums if trial_result(y)]
    top = [y for y in dict.fromkeys(sums) if not any(y is not z and any(w is y for w in t.walk(z)) for z in sums)]
    wh = "%s (loop %s)" % (where(r), p.args[0])
    gap = skipped(r, new)
    if gap:
        rep.bad(nm + " later components", R_REC, wh, gap)
    elif len(top) != 1:
        rep.undecided(nm + " later components", R_REC, wh, "component %s" % t.show(new, 4)[:200])
    else:
        s = top[0]
        rest = t.add(new, t.mul(t.inv(TR), s))
        it = mk("iota", p.args[0])
        if s.args[0] is not TR:
            (rep.undecided if unknown_atoms(s.args[0]) else rep.bad)(nm + " later components", R_REC, wh, "local means of %s trials are added" % t.show(s.args[0], 3))
        elif any(y is s for y in t.walk(rest)):
            (rep.undecided if unknown_atoms(t.subst(new, {s: ONE})) else rep.bad)(nm + " later components", R_REC, wh, "component %s is not remainder - mean over trials" % t.show(t.subst(new, {s: sym("SUM")}), 4)[:200])
        else:
            body = s.args[1]
            if body.op == "idx" and body.args[1] is num(-1) and body.args[0].op == "app" and body.args[0].args[0] == "EMD.emd":
                rep.ok(nm + " later components", R_REC, wh, "remainder - (1/trials) * sum over trials of the last row of the trial")
            elif body.op == "idx" and body.args[0].op == "app" and body.args[0].args[0] == "EMD.emd" and body.args[1].op == "num":
                rep.bad(nm + " later components", R_REC, wh, "uses row %s of the trial as local mean" % t.show(body.args[1], 2))
            else:
                rep.undecided(nm + " later components", R_REC, wh, "local mean %s" % t.show(body, 3)[:200])
    # first component
    init = i["init"]
    acc = [q for q, j in r.I.phis.items() if j.get("back") is not None and any(y is q for y in t.walk(init)) and trial_result(j["back"])]
    name = nm + " first component"
    if len(acc) != 1:
        rep.undecided(name, R_REC, where(r), "%d accumulators" % len(acc))
        return
    q = acc[0]
    first = init.args[0][1] if init.op == "stack" and len(init.args) == 1 and init.args[0][0] == "row" else None
    j = r.I.phis[q]
    wq = "%s (loop %s)" % (where(r), q.args[0])
    n = r.I.loops.get(q.args[0], {}).get("n")
    if first is None or n is None:
        rep.undecided(name, R_REC, wq, "first component %s" % t.show(init, 3)[:200])
        return
    if n is not TR:
        (rep.undecided if unknown_atoms(n) else rep.bad)(name, R_REC, wq, "accumulated over %s trials" % t.show(n, 3))
        return
    want = t.mul(t.inv(TR), arr.idx(q, ZERO))
    if not t.is_zero(t.sub(first, want)):
        u = [y for y in t.walk(first) if y.op == "havoc"]
        (rep.undecided if u else rep.bad)(name, R_REC, wq, "first component %s" % t.show(first, 4)[:200])
        return
    rep.ok(name, R_REC, wq, "(1/trials) * accumulated first rows")


def check(prog, rep, tier):
    for sep in (False, True):
        for par in (False, True):
            rep.guard("EEMD %s %s" % (sep, par), R_MEAN, lambda: eemd(prog, rep, sep, par))
    for par in (False, True):
        rep.guard("CEEMDAN %s" % par, R_REC, lambda: ceemdan(prog, rep, par, False))
