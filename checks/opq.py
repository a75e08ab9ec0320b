"""Public helper methods kept opaque: a call becomes a term of its (bound) arguments, so that the algorithm around them is seen in its own terms."""
from .common import *
from sa.runs import bindargs


def arrs(I, st, terms, node, rank=1):
    out = []
    for x in terms:
        arr.RANK[x] = rank
        out.append(I.newarr(st, x, rank, node=node))
    return out


def opaque(prog, qual, name, shape, rank=1):
    """shape: number of arrays returned in a tuple, "bool", or a tuple of tuple sizes."""
    try:
        f = get_func(prog, qual)
    except AnchorMissing:
        return {}

    def h(I, st, args, kw, node):
        env = bindargs(I, st, f, args, kw, node)
        a = [I.read(st, v) for k, v in env.items() if k not in ("self", "cls")]
        if shape == "bool":
            return V(app(name, *a))
        if isinstance(shape, tuple):
            return Tup(tuple(Tup(tuple(arrs(I, st, [app("%s.%d.%d" % (name, i, j), *a) for j in range(n)], node, 1))) for i, n in enumerate(shape)))
        return Tup(tuple(arrs(I, st, [app("%s.%d" % (name, i), *a) for i in range(shape)], node, rank)))
    return {qual: h}


def merge(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out
