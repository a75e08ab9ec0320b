import ast
from .common import *

EXPLANATION = ("Typestate analysis of worker pools: every pool opened on behalf of a call is tracked from creation to close / terminate / "
               "context-manager exit, through aliases, helpers, finally blocks and handlers, along normal exits, early returns, explicit "
               "raises and the implicit exceptional exits of every point where a trial or the noise generation may raise.")
RULE = "no pool is open at any normal or exceptional exit of the call"


def heavy(prog, what):
    """May this point raise because a trial / the noise generation raised?"""
    if what.startswith("pool"):
        return True
    if what == "call" or what.startswith("m:"):
        return False
    try:
        f = get_func(prog, what)
    except AnchorMissing:
        return False
    if what.startswith(runs.EMD_QUAL):
        return True
    return any(isinstance(n, ast.Raise) for n in ast.walk(f.node))


def one(prog, rep, name, mkrun):
    def go():
        r = mkrun()
        rep.covered(r)
        opened = [e for e in r.I.events if e.kind == "call" and e.name == "pool.open"]
        maps = [e for e in r.I.events if e.kind == "poolmap"]
        left = [c for c in r.I.npm.open_pools(r.st)]
        bad = False
        for c in left:
            bad = True
            rep.bad(name, RULE, str(r.st.heap[c].site), "pool still open when the call returns normally", key=name + ":return")
        raises = [e for e in r.I.events if e.kind == "raise"]
        seen = set()
        for p in r.I.pending:
            if not heavy(prog, p["what"]):
                continue
            k = (p["func"].qual if p["func"] else "?", getattr(p["node"], "lineno", 0))
            if k in seen:
                continue
            seen.add(k)
            bad = True
            rep.bad(name, RULE, "%s:%s %s" % (p["func"].module.rel if p["func"] else "?", k[1], k[0]),
                    "if %s raises here, the pool opened at %s is not released" % (p["what"], [p["heap"][c].site for c in p["pools"]][:2]), key=name + ":raise")
        if not bad:
            rep.ok(name, RULE, where(r), "%d pool(s) opened, %d parallel map(s), %d explicit raises, all exits release them" % (len(opened), len(maps), len(raises)))
    rep.guard(name, RULE, go)


def check(prog, rep, tier):
    for par in (True, False):
        for prg in (FALSE, TRUE):
            for T in ("none", "arr"):
                nm = "parallel=%s progress=%s T=%s" % (par, prg is TRUE, T)
                one(prog, rep, "EEMD " + nm, lambda: runs.eemd(prog, parallel=par, T=T, kw={"progress": V(prg)}))
                one(prog, rep, "CEEMDAN " + nm, lambda: runs.ceemdan(prog, parallel=par, T=T, kw={"progress": V(prg)}))
