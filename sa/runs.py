"""Standard analysis contexts for the public entry points."""
from . import terms as t
from . import arr
from .terms import num, sym, py, app, mk, NONE, TRUE, FALSE, ZERO, ONE
from .interp import (Interp, State, V, Ref, LRef, DRef, ORef, Tup, Fn, Cls, Ext, VIte, Val)
from . import entry as en
from .entry import enter, arrin, scin, get_func, get_class, AnchorMissing

EMD_QUAL = "PyEMD.EMD.EMD"


def bindargs(I, st, f, args, kw, node):
    env = {}
    I.bind(st, f, args, kw, node, env)
    return env


def opaque_emd(prog):
    """The ensemble methods are analysed against the contract of the inner
    decomposition: a fresh matrix determined by the call arguments and the
    inner object's options, which also replaces the stored result."""
    try:
        f = get_func(prog, EMD_QUAL + ".emd")
    except AnchorMissing:
        f = None

    def h(I, st, args, kw, node):
        env = bindargs(I, st, f, args, kw, node)
        S, T, m = env.get("S"), env.get("T"), env.get("max_imf")
        a = [I.read(st, x) if x is not None else NONE for x in (S, T, m)]
        r = app("EMD.emd", *a)
        arr.RANK[r] = 2
        o = args[0]
        I.event(st, "call", EMD_QUAL + ".emd", (o,) + tuple(a), node)
        if isinstance(o, ORef) and st.heap[o.cid].attrs is not None:
            c = st.heap[o.cid]
            at = dict(c.attrs)
            i = app("EMD.imfs", *a)
            arr.RANK[i] = 2
            q = app("EMD.residue", *a)
            arr.RANK[q] = 1
            at["imfs"] = I.newarr(st, i, 2)
            at["residue"] = I.newarr(st, q, 1)
            at["DTYPE"] = V(app("EMD.dtype", *a))
            st.heap[o.cid] = c.upd(attrs=at)
        return I.newarr(st, r, 2, node=node)

    return {EMD_QUAL + ".emd": h, EMD_QUAL + ".__call__": h} if f is not None else {}


def emd(prog, T="none", selfattrs=None, opaque=None, setup=None):
    a = [arrin("S"), V(NONE) if T == "none" else arrin("T"), scin("max_imf")]
    return enter(prog, EMD_QUAL + ".emd", args=a, selfattrs=selfattrs, opaque=opaque, setup=setup)


def eemd(prog, parallel=None, T="none", method="eemd", cls="PyEMD.EEMD.EEMD", selfattrs=None, kw=None, setup=None, opaque=None):
    sa = dict(selfattrs or {})
    if parallel is not None:
        sa["parallel"] = V(TRUE if parallel else FALSE)
    a = [arrin("S"), V(NONE) if T == "none" else arrin("T"), scin("max_imf")]
    return enter(prog, cls + "." + method, args=a, kw=kw or {"progress": V(FALSE)}, selfattrs=sa, opaque=dict(opaque_emd(prog), **(opaque or {})),
                 ctor=dict(kw={"ext_EMD": V(NONE)}), setup=setup)


def ceemdan(prog, **k):
    return eemd(prog, method="ceemdan", cls="PyEMD.CEEMDAN.CEEMDAN", **k)


def instance(cls, **k):
    """Argument builder: a constructed, generalised instance."""
    def h(I, st):
        o = en.construct(I, st, get_class(I.prog, cls), **k)
        en.generalise(I, st, o)
        I.events = []
        return o
    return h


def matlab(prog, T="arr"):
    return enter(prog, "PyEMD.EMD_matlab.EMD.emd", gen=False,
                 args=[instance("PyEMD.EMD_matlab.EMD"), arrin("S"), V(NONE) if T == "none" else arrin("T"), scin("maxImf")])


def emd2d(prog, setup=None):
    return enter(prog, "PyEMD.EMD2d.EMD2D.emd", args=[arrin("image", 2), scin("max_imf")], setup=setup)


def bemd(prog):
    return enter(prog, "PyEMD.BEMD.BEMD.bemd", args=[arrin("image", 2), scin("max_imf")])


def config_dict(I, st):
    return DRef(I.new(st, kind="dict", content=sym("config"), origin="input:config"))


def jitfun(prog):
    return enter(prog, "PyEMD.experimental.jitemd.emd", args=[arrin("s"), arrin("t"), scin("max_imf")], kw={"config": config_dict})


def jitemd(prog):
    return enter(prog, "PyEMD.experimental.jitemd.JitEMD.emd", args=[arrin("s"), arrin("t"), scin("max_imf")])
