"""Analysis contexts: build an abstract instance and abstract inputs, then
analyse one public entry point of the project in that context."""
from . import terms as t
from . import arr
from .terms import num, sym, py, app, mk, NONE, TRUE, FALSE, ZERO, ONE
from .interp import (Interp, State, V, Ref, LRef, DRef, ORef, Tup, Fn, Cls, Ext, VIte, Val, StopAnalysis)


class AnchorMissing(Exception):
    """A public construct the property is anchored at is gone: analysis broken."""


class Run:
    """Result of analysing one entry point."""

    def __init__(self, I, st, value, self_ref, inputs, func):
        self.I, self.st, self.value, self.self_ref, self.inputs, self.func = I, st, value, self_ref, inputs, func

    @property
    def returned(self):
        return self.I.read(self.st, self.value)

    def attr(self, name, obj=None):
        c = self.st.heap[(obj or self.self_ref).cid]
        return c.attrs.get(name)

    def attr_term(self, name):
        v = self.attr(name)
        return None if v is None else self.I.read(self.st, v)

    def term(self, v):
        return self.I.read(self.st, v)


def get_class(prog, dotted):
    r = prog.resolve(dotted)
    if r[0] != "class":
        raise AnchorMissing("class %s not found" % dotted)
    return r[1]


def get_func(prog, dotted):
    r = prog.resolve(dotted)
    if r[0] == "func":
        return r[1]
    if "." in dotted:
        c, m = dotted.rsplit(".", 1)
        r = prog.resolve(c)
        if r[0] == "class":
            I = Interp.__new__(Interp)
            I.prog = prog
            f = Interp.find_method(I, r[1], m)
            if f is not None:
                return f
    raise AnchorMissing("function %s not found" % dotted)


def array_input(I, st, name, rk=1, nrows=None, dtype=True):
    s = sym(name)
    arr.RANK[s] = rk
    if nrows is not None:
        arr.NROWS[s] = nrows
    return I.newarr(st, s, rk, dtype=app("dtype", s) if dtype else None, origin="input:" + name)


def scalar_input(name):
    s = sym(name)
    arr.RANK[s] = 0
    return V(s)


def kwargs_dict(I, st):
    return DRef(I.new(st, kind="dict", items=(), cls="kwargs", origin="input:kwargs"))


def construct(I, st, cls, args=(), kw=None, symbolic=True):
    """Run the constructor; keyword options become app("opt", key, default)."""
    cid = I.new(st, kind="obj", attrs={}, cls=cls, origin="self")
    o = ORef(cid)
    init = I.find_method(cls, "__init__")
    k = dict(kw or {})
    if init is not None:
        a = init.node.args
        if symbolic:
            for x in a.args[1 + len(args):]:
                if x.arg not in k:
                    k[x.arg] = scalar_input("ctor." + x.arg)
                    v = k[x.arg]
            if a.kwarg is not None:
                k["**"] = kwargs_dict(I, st)
        I.call_fn(st, Fn(init), [o] + list(args), k, init.node)
    return o


RESULTY = ("imfs", "residue")


def generalise(I, st, o, prefix="self", keep=(), fixed=None):
    """Replace option attributes by symbols `prefix.X` (any value), result
    attributes by arrays of unknown earlier content."""
    c = st.heap[o.cid]
    at = {}
    for k, v in c.attrs.items():
        if k in keep:
            at[k] = v
        elif fixed and k in fixed:
            at[k] = fixed[k] if isinstance(fixed[k], Val) else V(t.const(fixed[k]))
        elif isinstance(v, ORef):
            cc = st.heap[v.cid]
            if cc.kind == "obj":
                generalise(I, st, v, prefix + "." + k)
                st.heap[v.cid] = st.heap[v.cid].upd(origin=prefix + "." + k)
            elif cc.kind == "rng":
                st.heap[v.cid] = cc.upd(content=sym("rng:" + prefix + "." + k), origin="rng:" + prefix + "." + k)
            at[k] = v
        elif isinstance(v, V):
            if v.t is NONE or k in RESULTY:
                at[k] = prior(I, st, prefix + "." + k, v)
            else:
                s = sym(prefix + "." + k)
                arr.RANK[s] = 0
                at[k] = V(s)
        elif isinstance(v, (Fn, Cls, Ext)):
            at[k] = v
        elif isinstance(v, Ref):
            at[k] = prior(I, st, prefix + "." + k, v)
        elif isinstance(v, (LRef, DRef)):
            s = sym(prefix + "." + k)
            cc = st.heap[v.cid]
            n = I.new(st, kind=cc.kind, content=s, origin="attr:" + prefix + "." + k, cls=cc.cls)
            at[k] = type(v)(n)
        else:
            s = sym(prefix + "." + k)
            at[k] = V(s)
    st.heap[o.cid] = c.upd(attrs=at)


def prior(I, st, name, v):
    s = sym(name)
    return V(s) if True else v


def enter(prog, dotted, opaque=None, cls=None, ctor=None, args=(), kw=None, selfattrs=None, gen=True, setup=None, assume=()):
    """Analyse method `cls.name` or a function.  args/kw: callables (I, st)->Val or Val."""
    f = get_func(prog, dotted)
    I = Interp(prog, opaque)
    st = State(dict(I.state0.heap), {}, ())
    o = None
    if f.cls is not None or cls is not None:
        c = get_class(prog, cls or dotted.rsplit(".", 1)[0])
        o = construct(I, st, c, **(ctor or {}))
        I.events = []
        I.pending = []
        if gen:
            generalise(I, st, o, fixed=selfattrs)
        elif selfattrs:
            cc = st.heap[o.cid]
            at = dict(cc.attrs)
            for k, v in selfattrs.items():
                at[k] = v if isinstance(v, Val) else V(t.const(v))
            st.heap[o.cid] = cc.upd(attrs=at)
    if setup:
        setup(I, st, o)
    st.guard = ()
    from .history import snapshot
    before = snapshot(I, st, o)
    av = [a(I, st) if callable(a) and not isinstance(a, Val) else a for a in args]
    kv = {k: (a(I, st) if callable(a) and not isinstance(a, Val) else a) for k, a in (kw or {}).items()}
    assumed = [a(I, st, av) if callable(a) else a for a in assume]
    for a in assumed:
        st.guard += ((a, "f"),)
    first = [] if (o is None or f.is_static) else [Cls(f.cls) if f.is_class else o]
    val = I.call_fn(st, Fn(f), first + av, kv, f.node)
    r = Run(I, st, val, o, dict(args=av, kw=kv), f)
    r.dead = getattr(I, "_dead", None) is st
    r.before = before
    r.assumed = set(assumed)
    return r


def arrin(name, rk=1, **kw):
    return lambda I, st: array_input(I, st, name, rk, **kw)


def scin(name):
    return lambda I, st: scalar_input(name)


def call_method(r, name, args=(), kw=None):
    """Call another method of the analysed object on the state a run ended in."""
    I = r.I
    c = r.st.heap[r.self_ref.cid].cls
    f = I.find_method(c, name)
    if f is None:
        raise AnchorMissing("%s.%s" % (c.qual, name))
    ev = len(I.events)
    st = r.st.fork()
    st.guard = ()
    v = I.call_fn(st, Fn(f), [r.self_ref] + list(args), kw or {}, f.node)
    r2 = Run(I, st, v, r.self_ref, r.inputs, f)
    r2.dead = getattr(I, "_dead", None) is st
    r2.events = I.events[ev:]
    return r2
