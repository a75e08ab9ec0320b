from .common import *
from .small import thresholds
from .unroll import Unroll, NoUnroll, OutOfRange, Undecided, Fill
from fractions import Fraction

EXPLANATION = ("The extended lists of extrema are extracted as terms (slices, reversals, conditionals, mirror images 2c - t) and written out for every arrangement of up to 7 alternating extrema, "
               "edge distances and numbers of mirrored points, with symbolic signal values, branching on every comparison of values; each arrangement is judged by the mirroring rules.")
R_MID = "the given extrema appear unchanged, once and in order, between the added ones; maxima with maxima, minima with minima"
R_MIR = "every point added on a side is an extremum of the same kind (or the edge sample) mirrored about one centre common to both kinds, with its value"
R_CEN = "the centre is the outermost extremum when the edge sample stays inside the neighbouring extremum's value and the mirror images reach past the edge, otherwise the edge"
R_NUM = "the nearest nbsym (as many as there are) are mirrored on each side"
R_COV = "the extended times increase and span the whole signal"
RULES = {"mid": R_MID, "mir": R_MIR, "cen": R_CEN, "num": R_NUM, "cov": R_COV}


class World:
    """Alternating extrema at given sample positions; values are symbols."""

    def __init__(self, k, first, gaps, dl, dr, nbsym, frac, warp=False):
        self.k, self.first, self.nbsym, self.dl, self.dr = k, first, nbsym, dl, dr
        p, pos = dl, []
        for i in range(k):
            pos.append(Fraction(p))
            p += gaps[i % len(gaps)]
        self.N = int(pos[-1]) + dr + 1
        at = [int(q) for q in pos]
        if frac:
            pos = [q + Fraction(1, 3 + i) for i, q in enumerate(pos)]
        self.T = [Fraction(i) for i in range(self.N)]
        if warp:                    # times that neither start at 0 nor are evenly spaced
            f = lambda x: 7 + x + x * x / 9     # noqa: E731
            self.T, pos = [f(x) for x in self.T], [f(q) for q in pos]
        self.pos = pos
        self.kinds = [(i + (0 if first == "max" else 1)) % 2 for i in range(k)]      # 0: max, 1: min
        self.frac = frac
        self.S = [sym("s_%d" % i) for i in range(self.N)]
        self.val = [sym("e_%d" % i) for i in range(k)] if frac else [self.S[i] for i in at]

    def of(self, kind):
        return [(self.pos[i], self.val[i]) for i in range(self.k) if self.kinds[i] == kind]

    def __str__(self):
        return "%d extrema, first %s, at %s of %d samples, nbsym %d" % (self.k, self.first, [str(p) for p in self.pos], self.N, self.nbsym)


def worlds(frac, tier, warp=False, r=None):
    out = []
    ks, nbs = extra(r)
    for k in ks:
        for first in ("max", "min"):
            for dl, dr in ((1, 1), (3, 2)):
                out.append(World(k, first, (3, 5, 2, 4), dl, dr, 2, frac, False))
    for nb in nbs:
        for k in (5, 2 * nb + 4):
            if k < 24:
                out += [World(k, first, (3, 5, 2, 4), 3, 2, nb, frac, False) for first in ("max", "min")]
    for k in range(3, 8):
        for first in ("max", "min"):
            for gaps in ((2, 2), (3, 5, 2, 4)):
                for dl, dr in ((1, 1), (9, 1), (1, 9), (9, 9), (3, 2)):
                    for nb in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
                        if tier == "quick" and k > 5 and (gaps == (2, 2) or nb == 1):
                            continue
                        out.append(World(k, first, gaps, dl, dr, nb, frac, warp and len(out) % 2 == 1))
    return out


def extra(r):
    """numbers of extrema, and of mirrored ones, around the constants that conditions compare them with"""
    ks, nbs = set(), set()
    if r is not None and r.returned is not None:
        names = [sym(n + e) for n in ("max", "min") for e in ("_pos", "_val")]
        lens = {app("len", x): app("len", x) for x in names}
        for y in t.walk(r.returned):
            if y.op in ("lt0", "le0", "eq0"):
                at = {z for m in t.as_poly(y.args[0]) for z, _ in m}
                if at and at <= set(lens):
                    ks |= {2 * k + d for k in thresholds(y, top=9) for d in (0, 1)} | set(thresholds(y, top=18))
                elif at and at <= {sym("nbsym"), sym("self.nbsym")}:
                    nbs |= set(thresholds(t.subst(y, {z: app("len", z) for z in at}), top=9))
            elif y.op == "app" and y.args[0] in ("np.minimum", "np.maximum", "min", "max") and {sym("nbsym"), sym("self.nbsym")} & set(t.walk(y)):
                nbs |= set(thresholds(y, top=9))
    return sorted(k for k in ks if 7 < k < 22), sorted(k for k in nbs if k > 3)


def unrolled(r, w, choices):
    vecs = {sym("T"): [num(x) for x in w.T], sym("S"): w.S}
    for kind, n in ((0, "max"), (1, "min")):
        e = w.of(kind)
        vecs[sym(n + "_pos")] = [num(p) for p, _ in e]
        vecs[sym(n + "_val")] = [v for _, v in e]
    env = {sym("nbsym"): num(w.nbsym), sym("self.nbsym"): num(w.nbsym)}
    return Unroll(vecs, env, r.I, choices=choices)


def guards(r, sub):
    """(condition, place) of every explicit raise on the way."""
    out = []
    for e in r.I.events:
        if e.kind == "raise":
            g = [t.subst(x, sub) if sub else x for x, _k in e.guard]
            if FALSE not in g:
                out.append((g, e.where()))
    return out


def truth(x, choices):
    """Value of a condition; an open comparison in it is a choice still to be made."""
    if x in (TRUE, FALSE):
        return x is TRUE
    if x in choices:
        return choices[x]
    if x.op == "not":
        return not truth(x.args[0], choices)
    if x.op in ("and", "or"):
        return (all if x.op == "and" else any)([truth(a, choices) for a in x.args])
    if x.op != "lt0" or t.lt0(t.neg(x.args[0])) in choices:
        raise NoUnroll("condition " + t.show(x, 2)[:60])
    raise Undecided(x)


def feasible(w, choices):
    """False when the comparisons chosen so far contradict each other or the order of neighbouring extrema."""
    lt = set()
    for i in range(w.k - 1):
        a, b = w.val[i], w.val[i + 1]
        lt.add((b, a, True) if w.kinds[i] == 0 else (a, b, True))
    if not w.frac:
        for i, e in ((0, w.S[0]), (-1, w.S[-1])):
            lt.add((e, w.val[i], True) if w.kinds[i] == 0 else (w.val[i], e, True))
    for c, b in choices.items():
        if c.op not in ("lt0", "eq0"):
            continue
        d = c.args[0]
        v = [x for x in t.walk(d) if x.op == "sym"]
        if len(v) != 2:
            continue
        for x, y in (v, v[::-1]):
            if t.sub(x, y) is d or (c.op == "lt0" and t.lt0(t.sub(x, y)) is c):
                if c.op == "lt0":
                    lt.add((x, y, True) if b else (y, x, False))
                elif b:
                    lt |= {(x, y, False), (y, x, False)}
                break
    vs = {x for e in lt for x in e[:2]}
    dist = {x: 0 for x in vs}
    for n in range(len(vs) + 1):
        ch = False
        for x, y, st in lt:
            k = dist[x] + (1 if st else 0)
            if k > dist[y]:
                dist[y], ch = k, True
        if not ch:
            return True
    return False


def explore(r, v, w, gs=(), limit=64):
    """(choices, result) for every combination of value comparisons."""
    todo, out = [{}], []
    while todo:
        c = todo.pop()
        try:
            u = unrolled(r, w, c)
            res = None
            for g, at in gs:
                try:
                    if all(truth(u(x), c) for x in g):
                        res = "explicit raise at " + at
                except NoUnroll:
                    pass
            if res is None:
                res = [u(x) for x in v.args]
        except OutOfRange as e:
            res = str(e)
        except Undecided as e:
            for b in (True, False):
                d = dict(c)
                d[e.cond] = b
                if feasible(w, d):
                    todo.append(d)
            if len(todo) > limit:
                raise NoUnroll("more than %d combinations" % limit)
            continue
        out.append((c, res))
    return out


def side(w, left):
    """Times measured from the edge inwards: edge time, and per kind the extrema from the edge on."""
    if left:
        return w.T[0], [w.of(0), w.of(1)], 1, w.S[0]
    return w.T[-1], [w.of(0)[::-1], w.of(1)[::-1]], -1, w.S[-1]


def judge(w, choices, res):
    """Violated rule and description, or None."""
    added = {True: {}, False: {}}
    for kind, m in enumerate(res):
        name = ("maxima", "minima")[kind]
        if not isinstance(m, list) or len(m) != 2 or not all(isinstance(q, list) for q in m):
            raise NoUnroll("result is not two rows")
        if len(m[0]) != len(m[1]):
            return "mid", "%d times but %d values for the %s" % (len(m[0]), len(m[1]), name)
        tm = [x.args[0] if isinstance(x, t.Term) and x.op == "num" else None for x in m[0]]
        if None in tm:
            raise NoUnroll("time %s" % t.show(m[0][tm.index(None)], 2)[:80])
        pts = list(zip(tm, m[1]))
        own = w.of(kind)
        at = [i for i, p in enumerate(pts) if p in own]
        if [pts[i] for i in at] != own or at != list(range(at[0], at[0] + len(own))) if at else True:
            return "mid", "%s come out as %s" % (name, show(pts))
        added[True][kind], added[False][kind] = pts[:at[0]][::-1], pts[at[-1] + 1:]
        if any(b <= a for a, b in zip(tm, tm[1:])):
            return "cov", "times of the %s are not increasing: %s" % (name, [str(x) for x in tm])
        if tm[0] > w.T[0] or tm[-1] < w.T[-1]:
            return "cov", "the %s span %s..%s of %s..%s" % (name, tm[0], tm[-1], w.T[0], w.T[-1])
    for left in (True, False):
        e = onside(w, choices, left, added[left])
        if e is not None:
            return e[0], ("left: " if left else "right: ") + e[1]
    return None


def show(pts):
    return [(str(a), t.show(b, 2)) for a, b in pts][:12]


def onside(w, choices, left, added):
    edge, ext, sg, s_edge = side(w, left)
    outer = 0 if sg * (ext[0][0][0] - ext[1][0][0]) < 0 else 1            # kind of the outermost extremum
    e0, nxt = ext[outer][0], ext[1 - outer][0]
    centres = set()
    src = {}
    for kind in (0, 1):
        src[kind] = []
        for tm, v in added[kind]:
            s = [p for p, x in ext[kind] if x is v]
            if v is s_edge:
                s = [edge]
            if not s:
                return "mir", "the point (%s, %s) is no extremum of its kind mirrored" % (tm, t.show(v, 2))
            centres.add((tm + s[0]) / 2)
            src[kind].append((s[0], v))
    if len(centres) > 1:
        return "mir", "points mirrored about different centres %s" % sorted(map(str, centres))
    if not centres:
        return "num", "no points added"
    c = centres.pop()
    if c not in (edge, e0[0]):
        return "cen", "mirrored about %s, neither the outermost extremum nor the edge" % c
    for kind in (0, 1):
        el = [p for p in ext[kind] if not (c == e0[0] and kind == outer and p == e0)]
        got = src[kind]
        if got and got[0][1] is s_edge:
            if c != edge:
                return "mir", "the edge sample is mirrored about an inner point"
            el = [(edge, s_edge)] + el
        want = el[: w.nbsym]
        if got != want:
            return "num", "%s mirrored: %s, expected the nearest %d: %s" % (("maxima", "minima")[kind], show(got), w.nbsym, show(want))
    # which centre: is the edge sample inside the neighbouring extremum's value?
    d = t.sub(nxt[1], s_edge) if outer == 0 else t.sub(s_edge, nxt[1])     # < 0 iff inside
    inside = known(choices, d)
    if c == e0[0] and inside is not True:
        return "cen", "mirrored about the outermost extremum although the edge sample may lie beyond the neighbouring extremum's value"
    if w.frac:          # parabolic: already the nearest image of the other kind reaches past the edge
        reach = sg * (2 * e0[0] - nxt[0] - edge) < 0 and len(ext[outer]) > 1
    else:               # simple: the images of both kinds reach it
        far = [ext[outer][1:][: w.nbsym], ext[1 - outer][: w.nbsym]]
        reach = all(f and sg * (2 * e0[0] - f[-1][0] - edge) <= 0 for f in far)
    if inside is not False and reach and c != e0[0]:
        return "cen", "mirrored about the edge although the outermost extremum would do"
    return None


def known(choices, d):
    a, b = t.lt0(d), t.lt0(t.neg(d))
    if a in choices:
        return choices[a]
    if b in choices:
        return not choices[b]
    return None


def one(prog, rep, name, r, frac, tier, sub=None, warp=None):
    rep.covered(r)
    wh = where(r)
    v = r.returned
    if v is not None and sub:
        v = t.subst(v, sub)
        while v.op == "ite":
            v = v.args[1] if v.args[0] is TRUE else v.args[2]
    if v is None or v.op != "tuple" or len(v.args) != 2:
        rep.undecided(name, R_MID, wh, "returns %s" % (t.show(v, 2)[:80] if v is not None else None))
        return
    hits, n, vague = {}, 0, None
    ws, gs = worlds(frac, tier, frac if warp is None else warp, r), guards(r, sub)
    for w in ws:
        try:
            for c, res in explore(r, v, w, gs):
                n += 1
                if isinstance(res, str):
                    hits.setdefault("mid", (w, "raises: " + res))
                    continue
                e = judge(w, c, [x.sized(2) if isinstance(x, Fill) else x for x in res])
                if e is not None:
                    hits.setdefault(e[0], (w, e[1]))
        except NoUnroll as e:
            vague = (w, str(e))
            break
    for k, rule in RULES.items():
        if k in hits:
            rep.bad("%s %s" % (name, k), rule, wh, "%s: %s" % hits[k])
        elif vague is not None:
            rep.undecided("%s %s" % (name, k), rule, wh, "%s: %s" % vague)
        else:
            rep.ok("%s %s" % (name, k), rule, wh, "%d arrangements, %d combinations of comparisons" % (len(ws), n))


def check(prog, rep, tier):
    A = [arrin("T"), arrin("S"), arrin("max_pos"), arrin("max_val"), arrin("min_pos"), arrin("min_val")]
    J = "PyEMD.experimental.jitemd."

    def emd(det):
        k = sym("self.extrema_detection")
        return enter(prog, "PyEMD.EMD.EMD.prepare_points", args=A), {k: py(det)}
    for det, frac in (("simple", False), ("parabol", True)):
        rep.guard("EMD " + det, R_MID, lambda det=det, frac=frac: (lambda p: one(prog, rep, "EMD " + det, p[0], frac, tier, p[1]))(emd(det)))
        rep.guard("numba " + det, R_MID, lambda det=det, frac=frac: one(prog, rep, "numba " + det, enter(prog, J + "prepare_points", args=A + [V(py(det)), scin("nbsym")]), frac, tier))
    rep.guard("EMD_matlab", R_MID, lambda: one(prog, rep, "EMD_matlab", enter(prog, "PyEMD.EMD_matlab.EMD.preparePoints", args=[A[1], A[0]] + A[2:]), False, tier, warp=True))
