"""State that outlives a call: instance attributes, module globals, class
attributes and default arguments.  A run is analysed twice; the second time
everything the first one (or any other operation of the class) left behind is
replaced by symbols standing for an arbitrary earlier history."""
from . import terms as t
from . import arr
from .terms import sym, NONE
from .interp import V, Ref, LRef, DRef, ORef, Val, VIte
from . import entry as en

PERSIST = ("global:", "class:", "default:")


def persistent(st):
    """cid -> origin of cells that outlive calls."""
    return {c: x.origin for c, x in st.heap.items() if x.origin and x.origin.startswith(PERSIST)}


def left_behind(r, before):
    """Names of persistent state the run changed: {("attr", name)|("cell", origin)|("slot", origin, attr)}"""
    out = set()
    if r.self_ref is not None:
        now = r.st.heap[r.self_ref.cid].attrs
        was = before["self"]
        for k, v in now.items():
            if k not in was:
                out.add(("attr", k))
                continue
            o = was[k]
            if v is o:
                x = before["terms"].get(k)
                if x is not None and r.I.read(r.st, v) is not x:
                    out.add(("attr", k))
                continue
            x = r.I.read(r.st, v) if not isinstance(v, ORef) else None
            if isinstance(v, ORef):
                if not (isinstance(o, ORef) and o.cid == v.cid):
                    out.add(("attr", k))
            elif x is not before["terms"].get(k):
                if not idempotent(x, before["terms"].get(k)):
                    out.add(("attr", k))
    for c, origin in persistent(r.st).items():
        old = before["heap"].get(c)
        new = r.st.heap[c]
        if old is None or old is new:
            continue
        if new.attrs is not None:
            for k, v in new.attrs.items():
                if old.attrs.get(k) is not v:
                    out.add(("slot", origin, k))
        elif new.content is not old.content or new.items != old.items:
            out.add(("cell", origin))
    return out


def idempotent(x, s):
    return s is not None and x.op == "app" and x.args[0] in ("int", "float", "bool", "np.abs", "abs", "str") and len(x.args) == 2 and x.args[1] is s


def snapshot(I, st, o):
    at = dict(st.heap[o.cid].attrs) if o is not None else {}
    terms = {}
    for k, v in at.items():
        try:
            terms[k] = I.read(st, v)
        except Exception:
            pass
    return dict(self=at, terms=terms, heap=dict(st.heap))


def generaliser(left, arrays=False):
    """Setup hook: what was left behind may hold anything."""
    def setup(I, st, o):
        if o is not None:
            c = st.heap[o.cid]
            at = dict(c.attrs)
            for x in left:
                if x[0] == "attr":
                    old = at.get(x[1])
                    if isinstance(old, ORef):
                        continue
                    at[x[1]] = past(I, st, "self." + x[1], arrays, old)
            st.heap[o.cid] = c.upd(attrs=at)
        for x in left:
            for cid, origin in persistent(st).items():
                if x[0] == "cell" and origin == x[1]:
                    cc = st.heap[cid]
                    st.heap[cid] = cc.upd(content=sym("past:" + origin), items=None)
                if x[0] == "slot" and origin == x[1]:
                    cc = st.heap[cid]
                    a = dict(cc.attrs)
                    a[x[2]] = past(I, st, "past:%s.%s" % (origin, x[2]), arrays, a.get(x[2]))
                    st.heap[cid] = cc.upd(attrs=a)
    return setup


def past(I, st, name, arrays, old):
    s = sym(name)
    if arrays and not isinstance(old, (LRef, DRef)):
        return I.newarr(st, s, None, origin="past:" + name)
    if isinstance(old, (LRef, DRef)):
        cc = st.heap[old.cid]
        return type(old)(I.new(st, kind=cc.kind, content=s, origin="past:" + name, cls=cc.cls))
    return V(s)


def names(left):
    out = set()
    for x in left:
        if x[0] == "attr":
            out.add("self." + x[1])
            out.add("@pre:self." + x[1])
        elif x[0] == "cell":
            out.add("past:" + x[1])
        else:
            out.add("past:%s.%s" % (x[1], x[2]))
    return out
