"""What a value number depends on: leaf symbols and operations, through loop
phis (initial value, back edge) and the conditions that end their loops."""
from . import terms as t


def closure(I, xs, control=True):
    """All terms x transitively depends on."""
    seen = set()
    out = []
    st = list(xs)
    loops = set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        out.append(y)
        if y.op in ("phi", "iota"):
            if y.op == "phi":
                i = I.phis.get(y)
                if i is not None:
                    st.append(i["init"])
                    if i["back"] is not None:
                        st.append(i["back"])
            k = y.args[0]
            if control and k not in loops:
                loops.add(k)
                L = I.loops.get(k)
                if L is not None:
                    for c in [L.get("cond"), L.get("n")] + list(L.get("breaks", ())) + list(L.get("rets", ())):
                        if isinstance(c, t.Term):
                            st.append(c)
        st.extend(t.subterms(y))
    return out


def syms(I, xs, control=True):
    return {y.args[0] for y in closure(I, xs, control) if y.op == "sym"}


def funs(I, xs, control=True):
    return {y.args[0] for y in closure(I, xs, control) if y.op == "app"}
