import ast
from .common import *
from . import entries
from sa import npmodel

EXPLANATION = ("Effect analysis of every public operation (all branches, helpers inlined) and of every module's import-time code: calls and "
               "stores that change process-wide state are collected with the construct that makes them.")
RULE = "no reachable effect on process-wide state (global generators, numpy error state, warning filters, logging configuration, environment, " \
       "working directory, plotting configuration, files)"


def restored(r, e):
    """A later call of the same kind in a `finally` block of the same function restores the state."""
    for n in ast.walk(e.func.node):
        if isinstance(n, ast.Try) and n.finalbody:
            for s in n.finalbody:
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and any(x is not e and x.kind == e.kind and x.name == e.name and x.node is c for x in r.I.events):
                        return True
                    if c is e.node:
                        return True
    return False


def put_back(r, e):
    """the same place is assigned again in a `finally` block of the same function"""
    for n in ast.walk(e.func.node):
        if isinstance(n, ast.Try) and n.finalbody:
            inside = {id(c) for s in n.finalbody for c in ast.walk(s)}
            if id(e.node) in inside or any(x.kind == "setext" and x.name == e.name and id(x.node) in inside for x in r.I.events):
                return True
    return False


def effects(r):
    out = {}
    for e in r.I.events:
        if e.kind == "global":
            if e.func is not None and hasattr(e.func, "node") and restored(r, e):
                continue
            out.setdefault((e.name, e.where()), "changes %s (%s)" % (e.name, e.data))
        elif e.kind == "impure" and e.name.startswith(("numpy.random.", "random.", "scipy.stats.")):
            out.setdefault((e.name, e.where()), "draws from the process-wide generator through %s" % e.name)
        elif e.kind == "setext":
            if e.func is not None and hasattr(e.func, "node") and put_back(r, e):
                continue
            out.setdefault((e.name, e.where()), "assigns %s" % e.name)
        elif e.kind == "extern":
            out.setdefault((e.name, e.where()), "calls %s" % e.name)
    return out


def toplevel_calls(body):
    """Calls executed at import time."""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
            continue
        if isinstance(s, ast.ClassDef):
            yield from toplevel_calls(s.body)
            continue
        st = [s]
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.Call) or isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                yield n
            st.extend(ast.iter_child_nodes(n))


def dotted(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return ".".join([n.id] + p[::-1])
    return None


def classes(prog):
    out = {}
    for f in prog.functions():
        if f.cls is not None and f.name == "__init__" and not any(x in f.qual for x in (".tests", "perf_test", "examples")):
            out.setdefault(f.cls.qual, f.cls)
    return list(out.values())


def check(prog, rep, tier):
    for f in entries.public_functions(prog):
        if f.name == "__call__":
            continue

        def go():
            bad = 0
            variants = [()] + ([tuple(entries.optional_arrays(f))] if entries.optional_arrays(f) else [])
            ens = f.cls is not None and f.cls.name in ("EEMD", "CEEMDAN")
            if not ens:
                variants = variants[:1] if len(variants) > 1 and f.qual == runs.EMD_QUAL + ".emd" and tier == "quick" else variants
            for none in variants:
                r = entries.run_public(prog, f, none)
                rep.covered(r)
                for (what, w), msg in effects(r).items():
                    bad += 1
                    rep.bad(f.qual + " " + what, RULE, w, msg)
            if not bad:
                rep.ok(f.qual, RULE, where(r))
        rep.guard(f.qual, RULE, go)
    for c in classes(prog):
        def go():
            bad = 0
            I = Interp(prog)
            st = State(dict(I.state0.heap), {}, ())
            for _ in (0, 1):
                en.construct(I, st, c)
            r = type("R", (), {"I": I})
            wh = "%s:%d %s" % (c.module.rel, c.node.lineno, c.qual)
            for (what, w), msg in effects(r).items():
                bad += 1
                rep.bad(c.qual + " constructor " + what, RULE, w, msg)
            if not bad:
                rep.ok(c.qual + " constructor", RULE, wh)
        rep.guard(c.qual + " constructor", RULE, go)
    for m in prog.modules.values():
        if ".tests" in m.name or m.name.startswith(("perf_test", "example")):
            continue
        bad = 0
        n = 0
        for c in toplevel_calls(m.tree.body):
            n += 1
            if not isinstance(c, ast.Call):
                d = dotted(c.value if isinstance(c, ast.Subscript) else c)
                h = d.split(".") if d else [None]
                if h[0] in m.imports and not m.imports[h[0]].startswith("PyEMD"):
                    bad += 1
                    rep.bad("import of %s %s" % (m.name, d), RULE, "%s:%d" % (m.rel, c.lineno), "importing the module assigns %s" % ast.unparse(c))
                continue
            d = dotted(c.func)
            if d is None:
                continue
            h = d.split(".")
            full = ".".join([m.imports.get(h[0], h[0])] + h[1:])
            full = npmodel.canon(full)
            if npmodel.GLOBAL_MUT.get(full):
                bad += 1
                rep.bad("import of %s %s" % (m.name, full), RULE, "%s:%d" % (m.rel, c.lineno), "importing the module changes %s" % npmodel.GLOBAL_MUT[full])
        if not bad:
            rep.ok("import of " + m.name, RULE, m.rel, "%d import-time calls" % n)
