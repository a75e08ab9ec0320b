from .common import *
from .loopstep import Step, mentions
from sa import deps

EXPLANATION = ("The component loop of each decomposition is closed by value numbering; its continue, break and return guards are read as a "
               "transition relation over the loop counter and max_imf (all data-dependent conditions free).  Every exit must leave at most "
               "max_imf components, the limit must have no effect before it is reached nor when it is -1, and no component may depend on it.")
R_MAX = "no continue edge once max_imf components exist; at most one more row (the remainder) is appended"
R_FREE = "below the limit, and for max_imf=-1, the continue/stop decision does not depend on max_imf"
R_PRE = "components do not depend on max_imf: a limited run yields the first components of the unlimited one"


def rowphi(r):
    """Loops that build the returned matrix row by row: (phi, initial rows, back term)."""
    out = []
    for p, i in r.I.phis.items():
        b = i.get("back")
        if b is None or b.op != "stack" or len(b.args) != 2 or b.args[0] != ("mat", p) or b.args[1][0] != "row":
            continue
        if any(y is p for y in t.walk(r.returned)):
            init = i["init"]
            if init.op == "stack" and all(a[0] == "row" for a in init.args):
                out.append((p, len(init.args), b))
    return out


def limit(prog, rep, name, mk_run, m):
    r = mk_run()
    rep.covered(r)
    rows = rowphi(r)
    if len(rows) != 1:
        rep.undecided(name, R_MAX, where(r), "%d component loops" % len(rows))
        return
    p, r0, back = rows[0]
    key = p.args[0]
    wh = "%s (loop %s)" % (where(r), key)
    L = r.I.loops[key]
    # left after the component was added: by a break that keeps it, or (without any break) only by the loop's own condition
    late = any(isback(y, back) for y in t.walk(r.returned)) or not (L.get("breaks") or L.get("rets")) and L.get("n") is None
    try:
        s = Step(r, key, [m])
        io = s.io
        for lim in (1, 2, 3, 7):
            for i in range(0, lim + 2):
                (go, stop), (rgo, rstop) = s.outcomes({io: i, m: lim}, {io: i, m: -1})
                n = r0 + i + (2 if late else 1)              # components if it goes round (late: and adds another)
                if n > lim:
                    if go:
                        rep.bad(name, R_MAX, wh, "max_imf=%d: goes on to component %d when %s" % (lim, n, s.example(go)))
                        return
                    break                                    # later rounds are never reached
                else:
                    if go & rstop or stop & rgo:
                        rep.bad(name + " before the limit", R_FREE, wh, "max_imf=%d and max_imf=-1 decide differently after %d components" % (lim, r0 + i + (1 if late else 0)))
                        return
        for i in (0, 1, 5, 40):
            (go, stop), = s.outcomes({io: i, m: -1})
            if not go:
                rep.bad(name + " unlimited", R_FREE, wh, "max_imf=-1: always stops after round %d" % (i + 1))
                return
    except Unknown as e:
        rep.undecided(name, R_MAX, wh, str(e))
        return
    extra = rows_after(r.returned, p, back)
    if extra is None:
        rep.undecided(name + " rows", R_MAX, wh, "returned %s" % t.show(r.returned, 3)[:200])
    elif extra > 1:
        rep.bad(name + " rows", R_MAX, wh, "%d rows are appended after the loop" % extra)
    else:
        rep.ok(name, R_MAX, wh, "stops at max_imf components for every data-dependent condition")
        rep.ok(name + " before the limit", R_FREE, wh, "same decisions as max_imf=-1")
    seen = set()
    todo = [back.args[1][1]]
    hit = None
    while todo:
        x = todo.pop()
        for y in t.walk(x):
            if y is m:
                hit = x
            if y.op == "phi" and y not in seen:
                seen.add(y)
                for k in ("init", "back"):
                    z = r.I.phis.get(y, {}).get(k)
                    if z is not None and y is not p:
                        todo.append(z)
    if hit is None:
        rep.ok(name + " prefix", R_PRE, wh, "component terms free of max_imf")
    elif sift_differs(r, rep, name + " prefix", key, m):
        pass
    elif unknown_atoms(hit):
        rep.undecided(name + " prefix", R_PRE, wh, "component %s" % t.show(hit, 3)[:200])
    else:
        rep.bad(name + " prefix", R_PRE, wh, "a component depends on max_imf: %s" % around(hit, m))


def sift_differs(r, rep, name, key, m):
    """A loop inside the component loop that stops sooner or later because of max_imf."""
    outer = r.I.loops[key]["iota"]
    for k, L in r.I.loops.items():
        if not k.startswith(key + "/"):
            continue
        cs = [L.get("cond"), L.get("n")] + [c for q in ("conts", "breaks", "rets") for c in L.get(q, ())]
        if not any(isinstance(c, t.Term) and mentions(c, {m}) for c in cs):
            continue
        s = Step(r, k, [m, outer])
        for lim in (1, 2, 3, 7):
            for o in range(lim):
                for i in (0, 1, 5):
                    try:
                        (go, stop), (rgo, rstop) = s.outcomes({outer: o, m: lim, s.io: i}, {outer: o, m: -1, s.io: i})
                    except Unknown:
                        return False
                    d = go & rstop | stop & rgo
                    if d:
                        rep.bad(name, R_PRE, "%s (loop %s)" % (where(r), k), "component %d is sifted differently with max_imf=%d when %s" % (o + 1, lim, s.example(d)))
                        return True
    return False


def around(x, m):
    best = x
    for y in t.walk(x):
        if any(z is m for z in t.subterms(y)):
            best = y
            break
    return t.show(best, 4)[:200]


def isback(x, back):
    return x is back or x.op == "stack" and x.args[:len(back.args)] == back.args


def rows_after(x, p, back):
    """Largest number of rows a leaf of the result has beyond the loop's components."""
    if x is p or x is back:
        return 0
    if isback(x, back):
        return sum(k == "row" for k, _ in x.args[2:]) if all(k == "row" for k, _ in x.args[2:]) else None
    if x.op == "ite":
        q = [rows_after(y, p, back) for y in x.args[1:]]
        return None if None in q else max(q)
    if x.op == "poly":
        mats = {z for mo, c in x.args[0] for z, e in mo if e == 1 and any(y is p for y in t.walk(z)) and rows_after(z, p, back) is not None and z.op in ("phi", "stack", "ite", "idx", "store")}
        q = [rows_after(z, p, back) for z in mats]
        return None if not q or None in q else max(q)
    if x.op == "store":
        return rows_after(x.args[0], p, back)
    if x.op == "idx" and x.args[1].op == "slice":
        return rows_after(x.args[0], p, back)
    if x.op == "stack":
        n = 0
        for k, y in x.args:
            if k == "row":
                n += 1
            else:
                q = rows_after(y, p, back)
                if q is None:
                    return None
                n += q
        return n
    if x.op == "app" and x.args[0] in ("drows", "cast"):
        return rows_after(x.args[1], p, back)
    return None


def check(prog, rep, tier):
    M = sym("max_imf")
    for T in ("none", "arr"):
        rep.guard("EMD T=%s" % T, R_MAX, lambda: limit(prog, rep, "EMD T=%s" % T, lambda: runs.emd(prog, T=T), M))
        rep.guard("CEEMDAN T=%s" % T, R_MAX, lambda: limit(prog, rep, "CEEMDAN T=%s" % T, lambda: runs.ceemdan(prog, parallel=False, T=T), M))
    rep.guard("EMD2D", R_MAX, lambda: limit(prog, rep, "EMD2D", lambda: runs.emd2d(prog), M))
    rep.guard("BEMD", R_MAX, lambda: limit(prog, rep, "BEMD", lambda: runs.bemd(prog), M))
    rep.guard("numba EMD function", R_MAX, lambda: limit(prog, rep, "numba EMD function", lambda: runs.jitfun(prog), M))
    rep.guard("numba EMD class", R_MAX, lambda: limit(prog, rep, "numba EMD class", lambda: runs.jitemd(prog), M))
    for par in (False, True):
        for T in ("none", "arr"):
            rep.guard("EEMD parallel=%s T=%s" % (par, T), R_ALL, lambda: passed(prog, rep, par, T))


R_ALL = "every trial's decomposition is asked for exactly max_imf components"


def passed(prog, rep, par, T):
    name = "EEMD parallel=%s T=%s" % (par, T)
    r = runs.eemd(prog, parallel=par, T=T)
    rep.covered(r)
    calls = [y for k in [r.returned] + [i.get("back") for i in r.I.phis.values()] if isinstance(k, t.Term) for y in t.walk(k) if y.op == "app" and y.args[0] == "EMD.emd"]
    if not calls:
        rep.undecided(name, R_ALL, where(r), "no inner decomposition reaches the result")
        return
    for y in calls:
        m = y.args[3]
        if m is not sym("max_imf"):
            if unknown_atoms(m):
                rep.undecided(name, R_ALL, where(r), "limit %s" % t.show(m, 3)[:160])
            else:
                rep.bad(name, R_ALL, where(r), "the limit passed is %s" % t.show(m, 3)[:160])
            return
    rep.ok(name, R_ALL, where(r), "%d inner decompositions" % len(calls))
