"""Equality of value numbers across analysis runs: loop-carried values are
partitioned by refinement (same initial value, same back edge, up to the
partition), then terms are compared after renaming each to its class."""
from . import terms as t
from . import arr
from .terms import mk, sym, NONE


def iota_depth(skey):
    return sum(1 for x in skey.split("/") if x.startswith("L") or x.startswith("pool@"))


class Bisim:
    def __init__(self, runs, subs=None, rounds=12):
        """runs: list of Interp; subs: per-run substitution applied to every term first."""
        self.runs = runs
        self.subs = subs or [{} for _ in runs]
        self.maps = []
        items = []
        for k, I in enumerate(runs):
            for p, info in I.phis.items():
                if info["back"] is not None:
                    items.append((k, p, self.pre(k, info["init"]), self.pre(k, info["back"])))
        self.items = items
        colour = {(k, p): 0 for k, p, _, _ in items}
        icol = {}
        for k, I in enumerate(runs):
            for skey, L in I.loops.items():
                icol[(k, L["iota"])] = ("d", iota_depth(skey))
        ncls = -1
        for _ in range(rounds):
            self.build(colour, icol)
            sig = {}
            new = {}
            for k, p, i, b in items:
                s = (colour[(k, p)], self.canon(k, i).id, self.canon(k, b).id, str(icol.get((k, mk("iota", p.args[0])))))
                new[(k, p)] = sig.setdefault(s, len(sig))
            colour = new
            isig, inew = {}, {}
            for k, I in enumerate(runs):
                for skey, L in I.loops.items():
                    n = L.get("n")
                    nt = self.canon(k, self.pre(k, n)).id if n is not None else -1
                    c = L.get("cond")
                    ct = self.canon(k, self.pre(k, c)).id if (n is None and c is not None) else -1
                    s = (icol[(k, L["iota"])], nt, ct)
                    inew[(k, L["iota"])] = isig.setdefault(s, ("i", iota_depth(skey), len(isig)))
            icol = inew
            if len(sig) + len(isig) == ncls:
                break
            ncls = len(sig) + len(isig)
        self.build(colour, icol)
        self.nclasses = ncls

    def pre(self, k, x):
        return t.subst(x, self.subs[k]) if self.subs[k] else x

    def build(self, colour, icol):
        self.maps = [dict() for _ in self.runs]
        self.memo = [dict() for _ in self.runs]
        for (k, p), c in colour.items():
            s = sym("~%s" % c)
            r = arr.RANK.get(p)
            s = sym("~%s/%s" % (c, r))
            arr.RANK[s] = r
            self.maps[k][p] = s
        for k, m in enumerate(self.maps):
            for (kk, i), c in icol.items():
                if kk == k:
                    s = sym("~i%s" % (c,))
                    arr.RANK[s] = 0
                    m[i] = s
        for (k, p) in colour:
            n = arr.NROWS.get(p)
            s = self.maps[k][p]
            if n is not None and s not in arr.NROWS:
                arr.NROWS[s] = t.subst(self.pre(k, n), self.maps[k])

    def canon(self, k, x):
        return t.subst(x, self.maps[k], self.memo[k])

    def term(self, k, x):
        return self.canon(k, self.pre(k, x))

    def same(self, k1, x1, k2, x2):
        a, b = self.term(k1, x1), self.term(k2, x2)
        return a is b or t.is_zero(t.sub(a, b)) if (a.op == "poly" or b.op == "poly") else a is b
