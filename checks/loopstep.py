"""One step of an analysed loop as a transition relation over its tracked counters and options.

The guards under which the body goes round again, breaks or returns are Boolean combinations of comparisons.  Comparisons that involve a
tracked atom (loop counter, option, counter phi) are evaluated; all others are free Boolean leaves.  An assignment of the leaves counts
only when exactly one edge is taken."""
from .common import t, ground, Unknown, mk, TRUE, FALSE


_memo = {}


def mentions(x, tracked):
    k = (x, frozenset(tracked))
    if k not in _memo:
        _memo[k] = any(y in tracked for y in t.walk(x))
    return _memo[k]


def nextcond(r, L):
    c = L.get("cond")
    if c is None or L.get("n") is not None:
        n, io = L.get("n"), L["iota"]
        return t.lt0(t.sub(t.add(io, t.num(1)), n)) if n is not None else TRUE
    m = {p: r.I.phis[p]["back"] for p in L.get("phis", ()) if r.I.phis[p].get("back") is not None}
    m[L["iota"]] = t.add(L["iota"], t.num(1))
    return t.subst(c, m)


def canon(x):
    """Boolean leaf and polarity: a <= 0 is the negation of -a < 0."""
    if x.op == "le0":
        return t.lt0(t.neg(x.args[0])), False
    return x, True


def peval(x, env, tracked, memo):
    """Boolean value under env, or a residual formula over canonical leaves."""
    if x in memo:
        return memo[x]
    op = x.op
    if op == "bool":
        v = bool(x.args[0])
    elif op in ("and", "or"):
        stop = op == "or"
        rest = []
        v = None
        for y in x.args:
            z = peval(y, env, tracked, memo)
            if z is stop:
                v = stop
                break
            if z is (not stop):
                continue
            rest.append(z)
        if v is None:
            v = (not stop) if not rest else (op,) + tuple(rest)
    elif op == "not":
        z = peval(x.args[0], env, tracked, memo)
        v = (not z) if isinstance(z, bool) else ("not", z)
    elif op == "ite":
        c = peval(x.args[0], env, tracked, memo)
        if c is True:
            v = peval(x.args[1], env, tracked, memo)
        elif c is False:
            v = peval(x.args[2], env, tracked, memo)
        else:
            v = ("ite", c, peval(x.args[1], env, tracked, memo), peval(x.args[2], env, tracked, memo))
    elif x in tracked or mentions(x, tracked):
        try:
            v = bool(ground(x, env))
        except Unknown:
            q = embedded(x, tracked)
            if q is not None:                # split a conditional inside the comparison: its condition is a condition of its own
                v = peval(t.ite(q.args[0], t.subst(x, {q: q.args[1]}), t.subst(x, {q: q.args[2]})), env, tracked, memo)
            else:
                y = t.subst(x, {k: t.num(n) for k, n in env.items()})
                v = bool(y.args[0]) if y.op == "bool" else leaf(y)
    else:
        v = leaf(x)
    memo[x] = v
    return v


def embedded(x, tracked):
    """An outermost conditional in the arithmetic of a comparison whose arms mention a tracked atom or a constant."""
    if x.op == "ite":
        return x
    if x.op in ("poly", "lt0", "le0", "eq0"):
        for y in x.args:
            for z in parts(y):
                q = embedded(z, tracked)
                if q is not None:
                    return q
    return None


def parts(y):
    if isinstance(y, t.Term):
        return [y]
    if isinstance(y, (tuple, list)):
        return [z for w in y for z in parts(w)]
    return []


def leaf(x):
    y, pos = canon(x)
    return ("leaf", y) if pos else ("not", ("leaf", y))


def lits(f, out):
    if isinstance(f, bool):
        return
    if f[0] == "leaf":
        out.setdefault(f[1], True)
    else:
        for y in f[1:]:
            lits(y, out)


def table(f, tab, full):
    """Truth table of a formula as a bit set over all assignments of the leaves."""
    if isinstance(f, bool):
        return full if f else 0
    if f[0] == "leaf":
        return tab[f[1]]
    if f[0] == "not":
        return full ^ table(f[1], tab, full)
    if f[0] == "and":
        v = full
        for y in f[1:]:
            v &= table(y, tab, full)
        return v
    if f[0] == "or":
        v = 0
        for y in f[1:]:
            v |= table(y, tab, full)
        return v
    c = table(f[1], tab, full)
    return (c & table(f[2], tab, full)) | ((full ^ c) & table(f[3], tab, full))


def columns(ls):
    n = len(ls)
    full = (1 << (1 << n)) - 1
    tab = {}
    for i, l in enumerate(ls):
        w = 1 << i                       # block of w zeros followed by w ones, repeated
        block = ((1 << w) - 1) << w
        v, size = block, 2 * w
        while size < (1 << n):
            v |= v << size
            size *= 2
        tab[l] = v
    return tab, full


class Step:
    def __init__(self, r, key, tracked, limit=22):
        L = r.I.loops[key]
        self.L = L
        self.r = r
        self.io = L["iota"]
        self.tracked = set(tracked) | {self.io}
        self.conts = list(L.get("conts", ()))
        self.stops = list(L.get("breaks", ())) + list(L.get("rets", ()))
        self.next = nextcond(r, L)
        self.head = L.get("cond") if L.get("n") is None and L.get("cond") is not None else TRUE
        self.limit = limit

    def reached(self, env, guards):
        """Whether, in a round that starts under env, all these conditions can hold (free conditions chosen freely)."""
        memo = {}
        fs = [peval(x, env, self.tracked, memo) for x in [self.head] + list(guards)]
        if any(f is False for f in fs):
            return False
        ls = {}
        for f in fs:
            lits(f, ls)
        ls = list(ls)
        if len(ls) > self.limit:
            raise Unknown("%d independent conditions" % len(ls))
        tab, full = columns(ls)
        v = full
        for f in fs:
            v &= table(f, tab, full)
        return bool(v)

    def outcomes(self, *envs, extra=()):
        """For each environment the sets (go on, stop) of assignments of the free conditions, over one common numbering of them; for each
        extra integer term, {value: set of assignments}."""
        fs, ls = [], {}
        for env in envs:
            memo = {}
            ev = lambda x: peval(x, env, self.tracked, memo)       # noqa: E731
            f = (ev(self.head), ev(self.next), [ev(x) for x in self.conts], [ev(x) for x in self.stops], [numeric(x, env, self.tracked, memo) for x in extra])
            for g in [f[0], f[1]] + f[2] + f[3]:
                lits(g, ls)
            for q in f[4]:
                for g, _ in q:
                    lits(g, ls)
            fs.append(f)
        ls = list(ls)
        if len(ls) > self.limit:
            raise Unknown("%d independent conditions" % len(ls))
        tab, full = columns(ls)
        self.names = ls
        out = []
        for head, nxt, conts, stops, ex in fs:
            h = table(head, tab, full)
            c = s = end = 0
            if self.L.get("falls"):          # falling off the end of the body happens when no other edge is taken
                conts, end = conts[:-1], table(conts[-1], tab, full)
            for x in conts:
                c |= table(x, tab, full)
            for x in stops:
                s |= table(x, tab, full)
            vc, vs = h & (c & ~s | end & ~s & ~c), h & s & ~c
            nx = table(nxt, tab, full)
            vals = []
            for q in ex:
                d = {}
                for g, v in q:
                    d[v] = d.get(v, 0) | table(g, tab, full)
                vals.append(d)
            out.append((vc & nx, (vc & ~nx) | vs) + ((vals,) if extra else ()))
        return out

    def example(self, bits):
        """One assignment of a set, in words."""
        if not bits:
            return ""
        k = (bits & -bits).bit_length() - 1
        return " & ".join(("" if k >> i & 1 else "!") + t.show(l, 2) for i, l in enumerate(self.names))[:240] or "always"


def numeric(x, env, tracked, memo):
    """[(condition, value)] of an integer term made of conditionals."""
    if x.op == "ite":
        c = peval(x.args[0], env, tracked, memo)
        if isinstance(c, bool):
            return numeric(x.args[1] if c else x.args[2], env, tracked, memo)
        return [(("and", c, g), v) for g, v in numeric(x.args[1], env, tracked, memo)] + \
               [(("and", ("not", c), g), v) for g, v in numeric(x.args[2], env, tracked, memo)]
    try:
        return [(True, ground(x, env))]
    except Unknown:
        return [(True, None)]
