"""Interprocedural abstract interpreter (gated value numbering).

Join at every merge point (gated `ite`), fixpoint with `phi` terms at every
loop, calls to project functions analysed in context, calls to library
functions through a transfer-function table (npmodel).  No path enumeration,
no solver, and no execution of the analysed code.
"""
import ast
from fractions import Fraction
from . import terms as t
from . import arr
from .terms import Term, mk, app, num, sym, py, const, ZERO, ONE, NONE, TRUE, FALSE, NAN, ite, and_, or_, not_, havoc
from .arr import rank, nrows, idx, sumrows


# ------------------------------------------------------------------- values
class Val:
    __slots__ = ()


class V(Val):
    __slots__ = ("t",)

    def __init__(self, x):
        self.t = x

    def __repr__(self):
        return "V(%r)" % (self.t,)


class Ref(Val):
    """Reference to an array cell, possibly through a view path."""
    __slots__ = ("cid", "path", "rk")

    def __init__(self, cid, path=(), rk=None):
        self.cid = cid
        self.path = path
        self.rk = rk

    def __repr__(self):
        return "Ref(%d%s)" % (self.cid, self.path and list(self.path) or "")


class LRef(Val):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class DRef(Val):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class DElem(Val):
    __slots__ = ("cid", "key")

    def __init__(self, cid, key):
        self.cid = cid
        self.key = key


class ORef(Val):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return "ORef(%d)" % self.cid


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Fn(Val):
    __slots__ = ("f", "env", "defaults")

    def __init__(self, f, env=None, defaults=None):
        self.f = f
        self.env = env
        self.defaults = defaults


class Lam(Val):
    __slots__ = ("node", "env", "fi")

    def __init__(self, node, env, fi):
        self.node = node
        self.env = env
        self.fi = fi


class Bound(Val):
    __slots__ = ("obj", "fn")

    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn


class ExtM(Val):
    """Method of a library-typed value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Partial(Val):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Cls(Val):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Mod(Val):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Ext(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class VIte(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class RangeV(Val):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class LazyIter(Val):
    """kind: map / enumerate / zip / reversed / gen / items / values / keys."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args


class Mapped(Val):
    """Result of a worker-pool map: template value over a bound index."""
    __slots__ = ("n", "iota", "tmpl", "unordered", "heap")

    def __init__(self, n, iota, tmpl, unordered, heap):
        self.n, self.iota, self.tmpl, self.unordered, self.heap = n, iota, tmpl, unordered, heap


class SuperV(Val):
    __slots__ = ("obj", "cls")

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


# -------------------------------------------------------------------- heap
class Cell:
    __slots__ = ("kind", "content", "rank", "dtype", "nrows", "attrs", "items", "members", "aliases", "origin", "cls", "site", "depth")

    def __init__(self, kind, content=None, rank=None, dtype=None, nrows=None, attrs=None, items=None,
                 members=frozenset(), aliases=frozenset(), origin=None, cls=None, site=None, depth=0):
        self.depth = depth
        self.kind = kind
        self.content = content
        self.rank = rank
        self.dtype = dtype
        self.nrows = nrows
        self.attrs = attrs
        self.items = items
        self.members = members
        self.aliases = aliases
        self.origin = origin
        self.cls = cls
        self.site = site

    def upd(self, **kw):
        c = Cell.__new__(Cell)
        for s in Cell.__slots__:
            setattr(c, s, kw[s] if s in kw else getattr(self, s))
        return c


class State:
    __slots__ = ("heap", "env", "guard", "up")

    def __init__(self, heap, env, guard=(), up=None):
        self.heap = heap
        self.env = env
        self.guard = guard
        self.up = up

    def fork(self, lit=None, kind="b"):
        g = self.guard
        if lit is not None and t.truth(lit) is not TRUE:
            g = g + tuple((x, kind) for x in t.lits(lit))
        return State(dict(self.heap), dict(self.env), g, self.up)

    def facts(self):
        return t.Facts([g for g, _k in self.guard])

    def set(self, o):
        self.heap, self.env, self.guard, self.up = o.heap, o.env, o.guard, o.up


class Outcome:
    __slots__ = ("normal", "returns", "breaks", "continues", "raises")

    def __init__(self, normal):
        self.normal = normal
        self.returns = []
        self.breaks = []
        self.continues = []
        self.raises = []

    def absorb(self, o):
        self.returns += o.returns
        self.breaks += o.breaks
        self.continues += o.continues
        self.raises += o.raises


class Event:
    __slots__ = ("kind", "name", "data", "guard", "func", "node", "stack", "st", "par", "ctx")

    def __init__(self, kind, name, data, guard, func, node, stack, st=None):
        self.kind, self.name, self.data, self.guard, self.func, self.node, self.stack, self.st = kind, name, data, guard, func, node, stack, st

    def where(self):
        return "%s:%s (%s)" % (self.func.module.rel if self.func else "?", getattr(self.node, "lineno", "?"), self.func.qual if self.func else "?")

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name, self.data, self.where())


class StopAnalysis(Exception):
    pass


MAXDEPTH = 24
NARROW = {"numpy.float32", "numpy.float16", "numpy.int64", "numpy.int32", "numpy.int16", "numpy.int8", "numpy.uint8", "numpy.intp",
          "numpy.half", "numpy.single", "numpy.uint16", "numpy.uint32", "numpy.uint64", "builtin.int", "int", "f4", "f2", "i8", "i4", "float32", "float16",
          "numpy.int_", "builtin.bool", "bool", "numpy.bool_", "int64", "int32"}


class Interp:
    def __init__(self, prog, opaque=None):
        from . import npmodel
        self.prog = prog
        self.opaque = opaque or {}
        self.dtypes = set()
        self.events = []
        self.phis = {}
        self.loops = {}
        self.imprecise = []
        self.pending = []      # implicit-exception points with open pools
        self.stack = []        # call stack [(FuncInfo, node)]
        self.ncell = 0
        self.ctx = ()
        self.ext = npmodel.EXT
        self.methods = npmodel.METHODS
        self.npm = npmodel
        self.modcells = {}
        self.clscells = {}
        self.analysed = set()
        self.calls = 0
        self.fuel = 400000
        self.state0 = None
        self.trace = None
        self.loopdepth = 0
        self.parallel_depth = 0
        self._merge = None
        self.init_modules()

    # ------------------------------------------------------------- plumbing
    def event(self, st, kind, name, data, node):
        f = self.stack[-1][0] if self.stack else None
        e = Event(kind, name, data, st.guard, f, node, tuple(x[0].qual for x in self.stack), None)
        e.par = self.parallel_depth
        e.ctx = self.ctx
        self.events.append(e)
        return e

    def note(self, why, node=None):
        f = self.stack[-1][0].qual if self.stack else "?"
        self.imprecise.append("%s:%s %s" % (f, getattr(node, "lineno", "?"), why))

    def new(self, st, **kw):
        self.ncell += 1
        cid = self.ncell
        st.heap[cid] = Cell(depth=self.loopdepth, **kw)
        return cid

    def newarr(self, st, content, rk=-1, dtype=None, n=None, origin=None, aliases=frozenset(), node=None):
        if rk == -1:
            rk = rank(content)
        cid = self.new(st, kind="arr", content=content, rank=rk, dtype=dtype, nrows=n, origin=origin, aliases=aliases, site=getattr(node, "lineno", None))
        return Ref(cid, (), rk)

    def wrap(self, st, content, rk=-1, **kw):
        """Result of an operation: plain scalar when known rank 0, else a fresh array cell."""
        if rk == -1:
            rk = rank(content)
        if rk == 0 or content.op in ("py",):
            return V(content)
        return self.newarr(st, content, rk, **kw)

    # ---------------------------------------------------------------- reading
    def read(self, st, v):
        if isinstance(v, V):
            return v.t
        if isinstance(v, Ref):
            c = st.heap.get(v.cid)
            if c is None:
                return havoc("dead")
            x = c.content
            for p in v.path:
                x = idx(x, p)
            return x
        if isinstance(v, VIte):
            return ite(v.c, self.read(st, v.a), self.read(st, v.b))
        if isinstance(v, Tup):
            return mk("tuple", *[self.read(st, x) for x in v.items])
        if isinstance(v, LRef):
            c = st.heap.get(v.cid)
            if c is None:
                return havoc("dead")
            if c.items is not None:
                return t.stack(*[("row", self.read(st, x)) for x in c.items])
            return c.content
        if isinstance(v, DRef):
            c = st.heap.get(v.cid)
            if c is None:
                return havoc("dead")
            if c.items is not None:
                return app("dict", *[mk("tuple", k, self.read(st, x)) for k, x in c.items])
            return c.content
        if isinstance(v, DElem):
            return app("dget", self.read(st, DRef(v.cid)), v.key)
        if isinstance(v, ORef):
            c = st.heap.get(v.cid)
            if c is not None and c.content is not None:
                return c.content
            return app("obj", num(v.cid))
        if isinstance(v, Fn):
            return py("fn:" + v.f.qual)
        if isinstance(v, Cls):
            return py("cls:" + v.c.qual)
        if isinstance(v, Ext):
            return self.npm.ext_const(v.name)
        if isinstance(v, Bound):
            return app("bound", self.read(st, v.obj), py(v.fn.f.qual if isinstance(v.fn, Fn) else "?"))
        if isinstance(v, RangeV):
            return app("range", v.lo, v.hi, v.st)
        if isinstance(v, Mapped):
            x = self.read_heap(v.heap, v.tmpl)
            if v.unordered:
                x = t.subst(x, {v.iota: app("perm", v.iota)})
            return arr.comp(v.n, x, v.iota)
        if isinstance(v, LazyIter):
            return app("iter:" + v.kind, *[self.read(st, a) if isinstance(a, Val) else py(str(type(a))) for a in v.args])
        return py("val:" + type(v).__name__)

    def read_heap(self, heap, v):
        return self.read(State(heap, {}), v)

    def truth(self, st, v):
        """Condition term for `if v`."""
        if isinstance(v, V):
            c = t.truth(v.t)
        elif isinstance(v, VIte):
            c = ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        elif isinstance(v, Tup):
            c = t.boolc(len(v.items) > 0)
        elif isinstance(v, LRef):
            cell = st.heap[v.cid]
            if cell.items is not None:
                c = t.boolc(len(cell.items) > 0)
            else:
                c = t.lt0(t.neg(nrows(cell.content)))
        elif isinstance(v, (Fn, Cls, Ext, ORef, Bound, Lam, Mod)):
            c = TRUE
        elif isinstance(v, DRef):
            cell = st.heap[v.cid]
            c = t.boolc(len(cell.items) > 0) if cell.items is not None else app("truth", cell.content)
        else:
            c = self.read(st, v)
        return self.simp(st, c)

    def simp(self, st, c):
        if st.guard and c.op != "bool":
            return t.simp(c, st.facts())
        return c

    # ---------------------------------------------------------------- aliases
    def roots(self, st, v, seen=None):
        """Array cells v may share memory with."""
        if seen is None:
            seen = set()
        out = set()

        def cell(cid):
            if cid in seen:
                return
            seen.add(cid)
            out.add(cid)
            c = st.heap.get(cid)
            if c is None:
                return
            for a in c.aliases:
                cell(a)

        def go(v):
            if isinstance(v, Ref):
                cell(v.cid)
            elif isinstance(v, VIte):
                go(v.a)
                go(v.b)
            elif isinstance(v, Tup):
                for x in v.items:
                    go(x)
            elif isinstance(v, (LRef, DRef, DElem)):
                c = st.heap.get(v.cid)
                if c is None or v.cid in seen:
                    return
                seen.add(v.cid)
                if c.items is not None:
                    for x in c.items:
                        go(x[1] if isinstance(x, tuple) else x)
                for m in c.members:
                    cell(m)
                for a in c.aliases:
                    go(LRef(a))
            elif isinstance(v, Mapped):
                pass
        go(v)
        return out

    # ---------------------------------------------------------------- writing
    def cast(self, dtype, v):
        if dtype is None:
            return v
        if dtype.op == "py" and dtype.args[0] in NARROW:
            if v.op in ("num", "bool"):
                return v
            if "int" in str(dtype.args[0]) and (v.op == "app" and v.args[0] in ("nonzero1", "arange")):
                return v
            return app("cast", dtype, v)
        if dtype.op == "app" and dtype.args[0] == "dtype" and v.op not in ("num", "bool") and v is not dtype.args[1]:
            return app("cast", dtype, v)
        return v

    def write(self, st, v, index, val, node, aug=None):
        """v[index] = val (index None: whole)."""
        if isinstance(v, VIte):
            self.write_g(st, v.a, index, val, node, v.c)
            self.write_g(st, v.b, index, val, node, not_(v.c))
            return
        if isinstance(v, Ref):
            self.write_ref(st, v, index, val, node, None)
            return
        if isinstance(v, LRef):
            self.list_store(st, v, index, val, node)
            return
        if isinstance(v, DRef):
            self.dict_store(st, v, index, val, node)
            return
        if isinstance(v, DElem):
            self.event(st, "write", "dict-elem", frozenset([v.cid]), node)
            c = st.heap[v.cid]
            st.heap[v.cid] = c.upd(content=app("dstore2", c.content or ZERO, v.key, index or NONE, self.read(st, val)))
            return
        if isinstance(v, ORef):
            c = st.heap.get(v.cid)
            self.event(st, "call", "setitem", (v,), node)
            return
        if isinstance(v, Ext):
            self.event(st, "setext", v.name + "[...]", None, node)

    def write_g(self, st, v, index, val, node, g):
        if isinstance(v, VIte):
            self.write_g(st, v.a, index, val, node, and_(g, v.c))
            self.write_g(st, v.b, index, val, node, and_(g, not_(v.c)))
        elif isinstance(v, Ref):
            self.write_ref(st, v, index, val, node, g)
        else:
            s2 = st.fork(g)
            self.write(s2, v, index, val, node)
            j = self.join(g, s2, st)
            st.set(j)

    def write_ref(self, st, v, index, val, node, g):
        c = st.heap.get(v.cid)
        if c is None:
            return
        x = self.read(st, val) if isinstance(val, Val) else val
        x = self.cast(c.dtype, x)
        path = v.path + ((index,) if index is not None else ())
        new = self._store_path(c.content, path, x)
        if g is not None:
            new = ite(g, new, c.content)
        self.event(st, "write", c.origin or "local", frozenset([v.cid]) | frozenset(self.roots(st, v)), node)
        nr = c.nrows
        st.heap[v.cid] = c.upd(content=new, nrows=nr)
        # weak update of may-aliases
        for o, oc in list(st.heap.items()):
            if o != v.cid and (v.cid in oc.aliases or o in c.aliases) and oc.kind == "arr":
                st.heap[o] = oc.upd(content=havoc("alias"))
            if oc.kind in ("list", "dict") and v.cid in oc.members and oc.items is None:
                if new is not c.content:
                    st.heap[o] = oc.upd(content=havoc("alias"))

    def _store_path(self, base, path, x):
        if not path:
            return x
        p = path[0]
        if len(path) == 1:
            return arr.store(base, p, x)
        inner = self._store_path(idx(base, p), path[1:], x)
        return arr.store(base, p, inner)

    def list_to_abs(self, st, cid):
        c = st.heap[cid]
        if c.items is None:
            return c
        mem = set(c.members)
        for x in c.items:
            mem |= self.roots(st, x)
        content = t.stack(*[("row", self.read(st, x)) for x in c.items])
        c2 = c.upd(items=None, content=content, members=frozenset(mem))
        st.heap[cid] = c2
        return c2

    def list_store(self, st, v, index, val, node):
        c = st.heap[v.cid]
        self.event(st, "write", c.origin or "local", frozenset([v.cid]), node)
        if c.items is not None and index is not None and t.isnum(index):
            k = int(index.args[0])
            if -len(c.items) <= k < len(c.items):
                it = list(c.items)
                it[k] = val
                st.heap[v.cid] = c.upd(items=tuple(it))
                return
        c = self.list_to_abs(st, v.cid)
        st.heap[v.cid] = c.upd(content=arr.store(c.content, index if index is not None else arr.FULL, self.read(st, val)), members=c.members | frozenset(self.roots(st, val)))

    def list_append(self, st, v, val, node, quiet=False):
        c = st.heap[v.cid]
        if not quiet:
            self.event(st, "write", c.origin or "local", frozenset([v.cid]), node)
        if c.items is not None and self.loopdepth == c.depth:
            st.heap[v.cid] = c.upd(items=c.items + (val,))
            return
        c = self.list_to_abs(st, v.cid)
        st.heap[v.cid] = c.upd(content=t.stack(("mat", c.content), ("row", self.read(st, val))) if c.content.op != "stack" else t.stack(*(c.content.args + (("row", self.read(st, val)),))),
                               members=c.members | frozenset(self.roots(st, val)))

    def dict_abs(self, st, cid):
        c = st.heap[cid]
        if c.items is None:
            return c
        mem = set(c.members)
        content = app("dict")
        for k, x in c.items:
            mem |= self.roots(st, x)
            content = app("dstore", content, k, self.read(st, x))
        c2 = c.upd(items=None, content=content, members=frozenset(mem))
        st.heap[cid] = c2
        return c2

    def dict_store(self, st, v, key, val, node):
        c = st.heap[v.cid]
        self.event(st, "write", c.origin or "local", frozenset([v.cid]), node)
        if c.origin:
            self.event(st, "dstore", c.origin, (key, self.read(st, val)), node)
        if c.items is not None and t.isconst(key) and self.loopdepth == c.depth:
            it = [(k, x) for k, x in c.items if k is not key]
            # keep insertion position on overwrite
            pos = [i for i, (k, x) in enumerate(c.items) if k is key]
            if pos:
                it.insert(pos[0], (key, val))
            else:
                it.append((key, val))
            st.heap[v.cid] = c.upd(items=tuple(it))
            return
        c = self.dict_abs(st, v.cid)
        cont = c.content
        n = self.dlen(cont)
        valt = self.read(st, val)
        if n is not None and n is key:
            # appending at the next free integer key: row structure is kept
            rows = drows(cont)
            new = app("drows", t.stack(("mat", rows), ("row", valt)) if rows.op != "stack" else t.stack(*(rows.args + (("row", valt),))))
        else:
            new = app("dstore", cont, key, valt)
        st.heap[v.cid] = c.upd(content=new, members=c.members | frozenset(self.roots(st, val)))

    def dlen(self, cont):
        r = drows(cont)
        return None if r is None else nrows(r)

    # ------------------------------------------------------------------ joins
    def join_val(self, c, s1, v1, s2, v2):
        if v1 is v2:
            return v1
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        if isinstance(v1, V) and isinstance(v2, V):
            return V(ite(c, v1.t, v2.t))
        if isinstance(v1, Ref) and isinstance(v2, Ref) and v1.cid == v2.cid and v1.path == v2.path:
            return v1
        if type(v1) is type(v2) and isinstance(v1, (LRef, DRef, ORef)) and v1.cid == v2.cid:
            return v1
        if isinstance(v1, Tup) and isinstance(v2, Tup) and len(v1.items) == len(v2.items):
            return Tup([self.join_val(c, s1, a, s2, b) for a, b in zip(v1.items, v2.items)])
        if isinstance(v1, Fn) and isinstance(v2, Fn) and v1.f is v2.f:
            return v1
        if isinstance(v1, Ext) and isinstance(v2, Ext) and v1.name == v2.name:
            return v1
        if isinstance(v1, Cls) and isinstance(v2, Cls) and v1.c is v2.c:
            return v1
        if isinstance(v1, Bound) and isinstance(v2, Bound) and isinstance(v1.fn, Fn) and isinstance(v2.fn, Fn) and v1.fn.f is v2.fn.f:
            o = self.join_val(c, s1, v1.obj, s2, v2.obj)
            if isinstance(o, ORef):
                return Bound(o, v1.fn)
        m = self.merge_cells(c, s1, v1, s2, v2)
        if m is not None:
            return m
        return VIte(c, v1, v2)

    def merge_cells(self, c, s1, v1, s2, v2):
        """One joined cell for two arrays each created on its own branch."""
        mg = self._merge
        if mg is None or not (isinstance(v1, Ref) and isinstance(v2, Ref)) or v1.path or v2.path:
            return None
        k = (v1.cid, v2.cid)
        if k in mg:
            n = mg[k][0]
            return Ref(n, (), mg[k][2])
        if v1.cid in s2.heap or v2.cid in s1.heap or v1.cid not in s1.heap or v2.cid not in s2.heap:
            return None
        if any(a == v1.cid or b == v2.cid for a, b in mg):
            return None
        c1, c2 = s1.heap[v1.cid], s2.heap[v2.cid]
        if c1.kind != "arr" or c2.kind != "arr":
            return None
        rk = v1.rk if v2.rk is None else (v2.rk if v1.rk is None else max(v1.rk, v2.rk))
        cell = self.join_cell(c, s1, c1, s2, c2)
        cell = cell.upd(aliases=c1.aliases | c2.aliases | frozenset(k), rank=rk, depth=self.loopdepth)
        self.ncell += 1
        mg[k] = (self.ncell, cell, rk)
        return Ref(self.ncell, (), rk)

    def join(self, c, s1, s2, base_guard=()):
        """State that is s1 when c holds, s2 otherwise."""
        return self.join2(c, s1, s2, base_guard)[0]

    def join2(self, c, s1, s2, base_guard=(), v1=None, v2=None):
        saved, self._merge = self._merge, {}
        try:
            v = self.join_val(c, s1, v1, s2, v2)
            st = self.join_(c, s1, s2, base_guard)
            for n, cell, _r in self._merge.values():
                st.heap[n] = cell
        finally:
            self._merge = saved
        return st, v

    def join_(self, c, s1, s2, base_guard=()):
        heap = dict(s2.heap)
        for k, c1 in s1.heap.items():
            c2 = heap.get(k)
            if c2 is None:
                heap[k] = c1
            elif c2 is not c1:
                heap[k] = self.join_cell(c, s1, c1, s2, c2)
        env = {}
        for k in s1.env.keys() | s2.env.keys():
            env[k] = self.join_val(c, s1, s1.env.get(k), s2, s2.env.get(k))
        n = len(base_guard)
        g2 = set(s2.guard[n:])
        common = tuple(x for x in s1.guard[n:] if x in g2)
        return State(heap, env, tuple(base_guard) + common, s1.up)

    def join_cell(self, c, s1, c1, s2, c2):
        if c1.kind in ("obj", "class", "module"):
            attrs = {}
            for k in c1.attrs.keys() | c2.attrs.keys():
                a, b = c1.attrs.get(k), c2.attrs.get(k)
                if a is None or b is None:
                    attrs[k] = VIte(c, a or V(app("unset", py(k))), b or V(app("unset", py(k)))) if not (isinstance(a or b, V)) else V(ite(c, a.t if a else app("unset", py(k)), b.t if b else app("unset", py(k))))
                else:
                    attrs[k] = self.join_val(c, s1, a, s2, b)
            return c1.upd(attrs=attrs)
        if c1.kind in ("list", "dict"):
            if c1.items is not None and c2.items is not None:
                if len(c1.items) == len(c2.items):
                    if c1.kind == "list":
                        return c1.upd(items=tuple(self.join_val(c, s1, a, s2, b) for a, b in zip(c1.items, c2.items)))
                    if all(a[0] is b[0] for a, b in zip(c1.items, c2.items)):
                        return c1.upd(items=tuple((a[0], self.join_val(c, s1, a[1], s2, b[1])) for a, b in zip(c1.items, c2.items)))
            vr = LRef if c1.kind == "list" else DRef
            h1, h2 = State({**s1.heap, -1: c1}, {}), State({**s2.heap, -1: c2}, {})
            x1, x2 = self.read(h1, vr(-1)), self.read(h2, vr(-1))
            mem = c1.members | c2.members
            for h, cc in ((h1, c1), (h2, c2)):
                if cc.items is not None:
                    for x in cc.items:
                        mem |= frozenset(self.roots(h, x[1] if isinstance(x, tuple) else x))
            return c1.upd(items=None, content=ite(c, x1, x2), members=mem)
        dt = c1.dtype if c1.dtype is c2.dtype else (ite(c, c1.dtype, c2.dtype) if c1.dtype is not None and c2.dtype is not None else None)
        nr = c1.nrows if c1.nrows is c2.nrows else (ite(c, c1.nrows, c2.nrows) if c1.nrows is not None and c2.nrows is not None else None)
        content = c1.content
        if c1.content is not c2.content:
            content = ite(c, c1.content if c1.content is not None else NONE, c2.content if c2.content is not None else NONE)
        return c1.upd(content=content, dtype=dt, nrows=nr, aliases=c1.aliases | c2.aliases)

    def fold(self, states, base_guard, extra=None):
        """Join program-ordered exits; extra: parallel list of values."""
        if not states:
            return (None, None) if extra is not None else None
        acc = states[-1]
        av = extra[-1] if extra is not None else None
        n = len(base_guard)
        for i in range(len(states) - 2, -1, -1):
            s = states[i]
            cond = and_(*[g for g, k in s.guard[n:] if k == "b"])
            if cond is FALSE:
                continue
            # under not(cond): simplify later conditions is done lazily by ite
            acc, v = self.join2(cond, s, acc, base_guard, extra[i] if extra is not None else None, av)
            if extra is not None:
                av = v
        if extra is not None:
            return acc, av
        return acc

    def join_val_g(self, c, s1, v1, s2, v2):
        return self.join_val(c, s1, v1, s2, v2)

    # ---------------------------------------------------------------- modules
    def init_modules(self):
        st = State({}, {})
        self.state0 = st
        for m in self.prog.modules.values():
            cid = self.new(st, kind="module", attrs={}, origin="global:" + m.name)
            self.modcells[m.name] = cid
            for c in m.classes.values():
                ccid = self.new(st, kind="class", attrs={}, origin="class:" + c.qual, cls=c)
                self.clscells[c.qual] = ccid
        for m in self.prog.modules.values():
            dummy = FuncInfoTop(m)
            self.stack.append((dummy, None))
            fs = State(st.heap, {}, ())
            for s in m.toplevel:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr)):
                    try:
                        self.exec_stmt(s, fs)
                    except (StopAnalysis, RecursionError):
                        raise
                    except Exception as e:
                        self.note("module init: %s" % e, s)
            st.heap = fs.heap
            cell = st.heap[self.modcells[m.name]]
            at = dict(cell.attrs)
            at.update(fs.env)
            st.heap[self.modcells[m.name]] = cell.upd(attrs=at)
            self.tag_global(st, fs.env, "global:" + m.name)
            for c in m.classes.values():
                cs = State(st.heap, {}, ())
                for s in c.node.body:
                    if isinstance(s, (ast.Assign, ast.AnnAssign)):
                        try:
                            self.exec_stmt(s, cs)
                        except Exception as e:
                            self.note("class init: %s" % e, s)
                st.heap = cs.heap
                cell = st.heap[self.clscells[c.qual]]
                st.heap[self.clscells[c.qual]] = cell.upd(attrs=dict(cs.env))
                self.tag_global(st, cs.env, "class:" + c.qual)
            self.stack.pop()
        self.init_events = self.events
        self.events = []
        self.imprecise = []

    def tag_global(self, st, env, origin):
        for k, v in env.items():
            cid = getattr(v, "cid", None)
            if cid in st.heap and st.heap[cid].origin is None:
                st.heap[cid] = st.heap[cid].upd(origin=origin + "." + k)

    def lookup(self, st, name, node=None):
        if name in st.env and st.env[name] is not None:
            return st.env[name]
        fi = self.stack[-1][0]
        m = fi.module
        cell = st.heap.get(self.modcells[m.name])
        if cell is not None and name in cell.attrs:
            return cell.attrs[name]
        if name in m.funcs:
            return Fn(m.funcs[name])
        if name in m.classes:
            return Cls(m.classes[name])
        if name in m.imports:
            return self.resolved(st, m.imports[name])
        return Ext("builtin." + name)

    def resolved(self, st, dotted):
        r = self.prog.resolve(dotted)
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "module":
            return Mod(r[1])
        if r[0] == "global":
            cell = st.heap.get(self.modcells[r[1].name])
            if cell is not None and r[2] in cell.attrs:
                return cell.attrs[r[2]]
            return Ext(dotted)
        return Ext(dotted)

    # ------------------------------------------------------------- statements
    def exec_block(self, body, st):
        out = Outcome(st)
        for s in body:
            if out.normal is None:
                break
            o = self.exec_stmt(s, out.normal)
            if o is None:
                continue
            out.absorb(o)
            out.normal = o.normal
        return out

    def exec_stmt(self, s, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise StopAnalysis("analysis budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement " + type(s).__name__, s)
            return None
        return m(s, st)

    def s_Pass(self, s, st):
        return None

    def s_Import(self, s, st):
        d = {}
        self.stack[-1][0].module.add_import(s, d)
        for k, v in d.items():
            st.env[k] = self.resolved(st, v)

    s_ImportFrom = s_Import

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, (ast.Yield,)):
            v = self.eval(s.value.value, st) if s.value.value else V(NONE)
            self.do_yield(st, v, s)
            return None
        self.eval(s.value, st)
        return self.after(st)

    def after(self, st):
        """Turn a state killed by an always-raising call into a dead end."""
        if getattr(self, "_dead", None) is st:
            self._dead = None
            o = Outcome(None)
            return o
        return None

    def do_yield(self, st, v, node):
        y = st.env.get("$yield")
        if isinstance(y, LRef):
            self.list_append(st, y, v, node)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        d = self.after(st)
        if d:
            return d
        for tg in s.targets:
            self.assign(tg, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            d = self.after(st)
            if d:
                return d
            self.assign(s.target, v, st, s)

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            if tg.id in st.env.get("$globals", ()):
                self.set_global(st, tg.id, v, node)
                return
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            vs = self.unpack(st, v, n if not star else None, node)
            if star or vs is None:
                for e in tg.elts:
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    self.assign(e2, V(havoc("unpack")), st, node)
                return
            for e, x in zip(tg.elts, vs):
                self.assign(e, x, st, node)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, st)
            self.setattr(st, o, tg.attr, v, node)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, st)
            if isinstance(tg.value, ast.Attribute) and tg.value.attr == "__dict__":
                ob = self.eval(tg.value.value, st)
                k = self.read(st, self.eval(tg.slice, st))
                if k.op == "py":
                    self.setattr(st, ob, k.args[0], v, node)
                return
            i = self.index_term(tg.slice, st)
            self.write(st, o, i, v, node)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, node)

    def set_global(self, st, name, v, node):
        m = self.stack[-1][0].module
        cid = self.modcells[m.name]
        c = st.heap[cid]
        self.event(st, "setattr", c.origin, (cid, name), node)
        at = dict(c.attrs)
        at[name] = v
        st.heap[cid] = c.upd(attrs=at)

    def unpack(self, st, v, n, node):
        if isinstance(v, Tup):
            if n is None or len(v.items) == n:
                return list(v.items)
            return None
        if isinstance(v, VIte):
            a, b = self.unpack(st, v.a, n, node), self.unpack(st, v.b, n, node)
            if a is None or b is None or len(a) != len(b):
                return None
            return [self.join_val(v.c, st, x, st, y) for x, y in zip(a, b)]
        if isinstance(v, LRef):
            c = st.heap[v.cid]
            if c.items is not None and (n is None or len(c.items) == n):
                return list(c.items)
        if n is None:
            return None
        if isinstance(v, V):
            if v.t.op == "tuple" and len(v.t.args) == n:
                return [V(x) for x in v.t.args]
            return [self.wrap(st, idx(v.t, num(i))) if False else V(idx(v.t, num(i))) for i in range(n)]
        if isinstance(v, Ref):
            return [self.getitem(st, v, num(i), node) for i in range(n)]
        x = self.read(st, v)
        return [V(idx(x, num(i))) for i in range(n)]

    def s_AugAssign(self, s, st):
        tg = s.target
        op = s.op
        if isinstance(tg, ast.Name):
            cur = st.env.get(tg.id)
            if cur is None:
                cur = self.lookup(st, tg.id, s)
            r = self.eval(s.value, st)
            v = self.aug(st, cur, op, r, s)
            if v is not None:
                self.assign(tg, v, st, s)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, st)
            cur = self.getattr(st, o, tg.attr, s)
            r = self.eval(s.value, st)
            v = self.aug(st, cur, op, r, s)
            if v is not None:
                self.setattr(st, o, tg.attr, v, s)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, st)
            i = self.index_term(tg.slice, st)
            cur = self.getitem(st, o, i, s)
            r = self.eval(s.value, st)
            if isinstance(cur, LRef) and isinstance(op, ast.Add):
                self.npm.list_extend(self, st, cur, r, s)
                return self.after(st)
            nv = self.binop(st, op, cur, r, s)
            if isinstance(o, (DRef,)) and isinstance(cur, (Ref,)):
                # in-place on the array held by the dict
                self.write(st, cur, None, nv, s)
            self.write(st, o, i, nv, s)
        return self.after(st)

    def aug(self, st, cur, op, r, node):
        """In-place operator; returns a new binding or None when mutated in place."""
        if isinstance(cur, VIte):
            nv = self.binop(st, op, cur, r, node)
            if isinstance(cur.a, Ref) or isinstance(cur.b, Ref):
                self.write(st, cur, None, nv, node)
                return None
            return nv
        if isinstance(cur, Ref) and (cur.rk is None or cur.rk >= 1):
            nv = self.binop(st, op, cur, r, node)
            if cur.rk is None and not self._mutable_unknown(st, cur):
                return nv
            self.write(st, cur, None, nv, node)
            return None
        if isinstance(cur, LRef) and isinstance(op, ast.Add):
            self.npm.list_extend(self, st, cur, r, node)
            return None
        return self.binop(st, op, cur, r, node)

    def _mutable_unknown(self, st, v):
        # rank unknown: treat as an array unless it is an element view
        return not v.path

    def s_Delete(self, s, st):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                st.env.pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                o = self.eval(tg.value, st)
                if isinstance(o, Ext):
                    self.event(st, "setext", o.name + "[...]", None, s)
                if isinstance(o, (LRef, DRef)):
                    c = st.heap[o.cid]
                    self.event(st, "write", c.origin or "local", frozenset([o.cid]), s)
                    i = self.index_term(tg.slice, st)
                    if isinstance(o, LRef) and i is arr.FULL:
                        st.heap[o.cid] = c.upd(items=(), content=None)
                    elif isinstance(o, DRef) and c.items is not None and t.isconst(i):
                        st.heap[o.cid] = c.upd(items=tuple(x for x in c.items if x[0] is not i))
                    else:
                        st.heap[o.cid] = c.upd(items=None, content=app("ddel", self.read(st, o), i))
                elif isinstance(o, VIte):
                    self.event(st, "write", "local", frozenset(), s)
            elif isinstance(tg, ast.Attribute):
                o = self.eval(tg.value, st)
                if isinstance(o, ORef):
                    c = st.heap[o.cid]
                    self.event(st, "setattr", c.origin, (o.cid, tg.attr), s)
                    at = dict(c.attrs)
                    at.pop(tg.attr, None)
                    st.heap[o.cid] = c.upd(attrs=at)

    def s_Global(self, s, st):
        st.env["$globals"] = tuple(st.env.get("$globals", ())) + tuple(s.names)

    def s_Nonlocal(self, s, st):
        self.note("nonlocal", s)

    def s_FunctionDef(self, s, st):
        fi = self.stack[-1][0]
        f = self._nested(s, fi)
        st.env[s.name] = Fn(f, st.env)

    _nested_cache = {}

    def _nested(self, s, fi):
        from .program import FuncInfo
        f = self._nested_cache.get(id(s))
        if f is None:
            f = FuncInfo(fi.name + ".<locals>." + s.name, s, fi.module, None)
            self._nested_cache[id(s)] = f
        return f

    def s_ClassDef(self, s, st):
        self.note("local class", s)

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else V(NONE)
        d = self.after(st)
        if d:
            return d
        o = Outcome(None)
        o.returns.append((st, v))
        return o

    def s_Raise(self, s, st):
        name = "?"
        if s.exc is None:
            name = "reraise"
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, st)
                e = e.func
            name = _dot(e)
        o = Outcome(None)
        ev = self.event(st, "raise", name, None, s)
        o.raises.append((st, name, ev))
        return o

    def s_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        d = self.after(st)
        if d:
            return d
        if c is TRUE:
            return None
        bad = st.fork(not_(c))
        ev = self.event(bad, "raise", "AssertionError", None, s)
        o = Outcome(None)
        o.raises.append((bad, "AssertionError", ev))
        if c is FALSE:
            return o
        o.normal = st.fork(c, "f")
        return o

    def s_If(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        d = self.after(st)
        if d:
            return d
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        base = st.guard
        o1 = self.exec_block(s.body, st.fork(c))
        o2 = self.exec_block(s.orelse, st.fork(not_(c)))
        out = Outcome(None)
        out.absorb(o1)
        out.absorb(o2)
        if o1.normal is not None and o2.normal is not None:
            out.normal = self.join(c, o1.normal, o2.normal, base)
        elif o1.normal is not None or o2.normal is not None:
            alive, dead, lit = (o1, o2, c) if o1.normal is not None else (o2, o1, not_(c))
            ns = alive.normal
            if not (dead.returns or dead.breaks or dead.continues):
                ls = set(t.lits(lit))
                n = len(base)
                ns.guard = ns.guard[:n] + tuple((g, "f" if (g in ls and i < len(ls)) else k) for i, (g, k) in enumerate(ns.guard[n:]))
            out.normal = ns
        return out

    def s_Break(self, s, st):
        o = Outcome(None)
        o.breaks.append(st)
        return o

    def s_Continue(self, s, st):
        o = Outcome(None)
        o.continues.append(st)
        return o

    def s_With(self, s, st):
        pools = []
        vals = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            d = self.after(st)
            if d:
                return d
            self.event(st, "with", _dot(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else "?", None, s)
            if isinstance(v, ORef) and st.heap[v.cid].kind == "obj" and st.heap[v.cid].cls is not None:
                en = self.find_method(st.heap[v.cid].cls, "__enter__")
                if en is not None:
                    entered = self.call_fn(st, Fn(en), [v], {}, s)
                else:
                    entered = v
            elif isinstance(v, LazyIter) and v.kind == "ctxgen":
                entered = v.args[1] if len(v.args) > 1 else V(havoc("ctx"))
            elif isinstance(v, LazyIter) and v.kind == "closing":
                entered = v.args[0]
                v = entered
            else:
                entered = v
            if isinstance(v, (ORef, VIte)):
                pools.append(v)
            vals.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, entered, st, s)
        mark = len(self.pending)
        o = self.exec_block(s.body, st)

        def leave(x):
            for p in pools:
                self.npm.release_ctx(self, x, p, s)

        for x in self.exits(o):
            leave(x)
        self.settle_pending(mark, lambda ps, env: [self.npm.release_ctx(self, ps, p, s) for p in pools])
        return o

    s_AsyncWith = s_With

    def exits(self, o):
        xs = []
        if o.normal is not None:
            xs.append(o.normal)
        xs += [r[0] for r in o.returns]
        xs += list(o.breaks) + list(o.continues)
        xs += [r[0] for r in o.raises]
        return xs

    def settle_pending(self, mark, act, drop=False):
        """Apply a cleanup action to the implicit-exception states recorded since mark."""
        depth = len(self.stack)
        keep = []
        for p in self.pending[mark:]:
            ps = State(dict(p["heap"]), dict(p["envs"].get(depth, {})), ())
            ev = len(self.events)
            try:
                act(ps, None)
            except StopAnalysis:
                raise
            except Exception:
                pass
            del self.events[ev:]
            opens = self.npm.open_pools(ps)
            if opens and not drop:
                p = dict(p)
                p["heap"] = ps.heap
                p["pools"] = opens
                keep.append(p)
        self.pending[mark:] = keep

    def may_raise(self, st, node, what):
        opens = self.npm.open_pools(st)
        if not opens:
            return
        envs = {}
        s, d = st, len(self.stack)
        while s is not None:
            envs[d] = s.env
            s = s.up
            d -= 1
        self.pending.append(dict(heap=st.heap.copy(), envs=envs, pools=opens, node=node, what=what,
                                 func=self.stack[-1][0] if self.stack else None, guard=st.guard))

    def s_Try(self, s, st):
        start = st.fork()
        mark = len(self.pending)
        o = self.exec_block(s.body, st)
        if s.orelse and o.normal is not None:
            o2 = self.exec_block(s.orelse, o.normal)
            o.normal = o2.normal
            o.absorb(o2)
        if s.handlers:
            names = []
            for h in s.handlers:
                if h.type is None:
                    names.append(None)
                elif isinstance(h.type, ast.Tuple):
                    names.append([_dot(e).split(".")[-1] for e in h.type.elts])
                else:
                    names.append([_dot(h.type).split(".")[-1]])
            def matches(h, exc):
                return h is None or "BaseException" in h or "Exception" in h or exc.split(".")[-1] in h
            hout = []
            left = []
            for (rs, name, ev) in o.raises:
                for h, hn in zip(s.handlers, names):
                    if matches(hn, name):
                        ev.kind = "caught"
                        hs = rs
                        if h.name:
                            hs.env[h.name] = V(havoc("exc"))
                        hout.append(self.exec_block(h.body, hs))
                        break
                else:
                    left.append((rs, name, ev))
            o.raises = left
            broad = any(h is None or "BaseException" in h or "Exception" in h for h in names)
            # implicit exceptions: the handler may run from the start of the body
            for h, hn in zip(s.handlers, names):
                exc = mk("havoc", "exc@%s:%d" % (self.stack[-1][0].qual, h.lineno), 0)
                hs = start.fork(exc)
                if h.name:
                    hs.env[h.name] = V(havoc("exc"))
                ho = self.exec_block(h.body, hs)
                hout.insert(0, ho)
            if broad:
                hb = [h for h, hn in zip(s.handlers, names) if hn is None or "Exception" in hn or "BaseException" in hn][0]
                res = []
                def act(ps, env):
                    oo = self.exec_block(hb.body, ps)
                    xs = self.exits(oo)
                    res.append(oo.normal is None and not oo.returns)
                    if xs:
                        ps.set(xs[0])
                before = self.pending[mark:]
                self.settle_pending(mark, act)
            normals = [x.normal for x in hout if x.normal is not None]
            for x in hout:
                o.returns = x.returns + o.returns
                o.breaks = x.breaks + o.breaks
                o.continues = x.continues + o.continues
                o.raises += x.raises
            allst = normals + ([o.normal] if o.normal is not None else [])
            if allst:
                o.normal = self.fold(allst, start.guard)
        if s.finalbody:
            out = Outcome(None)
            def runfin(x):
                f = self.exec_block(s.finalbody, x)
                if f.returns or f.raises or f.breaks or f.continues:
                    out.absorb(f)
                return f.normal
            nret = []
            for (rs, v) in o.returns:
                x = runfin(rs)
                if x is not None:
                    nret.append((x, v))
            nb = [x for x in (runfin(b) for b in o.breaks) if x is not None]
            nc = [x for x in (runfin(b) for b in o.continues) if x is not None]
            nr = []
            for (rs, name, ev) in o.raises:
                x = runfin(rs)
                if x is not None:
                    nr.append((x, name, ev))
            nn = runfin(o.normal) if o.normal is not None else None
            self.settle_pending(mark, lambda ps, env: self.exec_block(s.finalbody, ps))
            out.returns += nret
            out.breaks += nb
            out.continues += nc
            out.raises += nr
            out.normal = nn
            return out
        return o

    # ------------------------------------------------------------------- loops
    def s_While(self, s, st):
        def head(x):
            return self.truth(x, self.eval(s.test, x))

        def body(x, iota):
            return self.exec_block(s.body, x)

        o = self.loop(s, st, head, body, None)
        if s.orelse and o.normal is not None:
            o2 = self.exec_block(s.orelse, o.normal)
            o.normal = o2.normal
            o.absorb(o2)
        return o

    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        d = self.after(st)
        if d:
            return d
        o = self.for_loop(s, st, itv, lambda x, v: self.for_body(s, x, v))
        if s.orelse and o.normal is not None:
            o2 = self.exec_block(s.orelse, o.normal)
            o.normal = o2.normal
            o.absorb(o2)
        return o

    def for_body(self, s, x, v):
        self.assign(s.target, v, x, s)
        return self.exec_block(s.body, x)

    def for_loop(self, node, st, itv, body):
        items = self.concrete_items(st, itv)
        if items is not None and len(items) <= 8:
            out = Outcome(st)
            base = st.guard
            breaks = []
            for v in items:
                if out.normal is None:
                    break
                x = out.normal
                if callable(v):
                    v = v(x)
                o = body(x, v)
                out.returns += o.returns
                out.raises += o.raises
                breaks += o.breaks
                conts = o.continues + ([o.normal] if o.normal is not None else [])
                out.normal = self.fold(conts, base) if conts else None
            exits = breaks + ([out.normal] if out.normal is not None else [])
            out.normal = self.fold(exits, base) if exits else None
            return out
        if _pooled(itv):
            self.may_raise(st, node, "pool results")
        n, elem = self.sym_iter(st, itv, node)

        def head(x):
            return None

        def bd(x, iota):
            v = elem(x, iota)
            return body(x, v)

        return self.loop(node, st, None, bd, n)

    def concrete_items(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, LRef):
            c = st.heap[v.cid]
            return list(c.items) if c.items is not None else None
        if isinstance(v, RangeV):
            if t.isnum(v.lo) and t.isnum(v.hi) and t.isnum(v.st):
                r = range(int(v.lo.args[0]), int(v.hi.args[0]), int(v.st.args[0]))
                if len(r) <= 8:
                    return [V(num(i)) for i in r]
            return None
        if isinstance(v, DRef):
            c = st.heap[v.cid]
            return [V(k) for k, _ in c.items] if c.items is not None else None
        if isinstance(v, LazyIter):
            if v.kind in ("keys", "values", "items"):
                c = st.heap[v.args[0].cid]
                if c.items is None:
                    return None
                if v.kind == "keys":
                    return [V(k) for k, _ in c.items]
                if v.kind == "values":
                    return [x for _, x in c.items]
                return [Tup([V(k), x]) for k, x in c.items]
            if v.kind == "enumerate":
                xs = self.concrete_items(st, v.args[0])
                if xs is None:
                    return None
                return [Tup([V(t.add(v.args[1], num(i))), x]) for i, x in enumerate(xs)]
            if v.kind == "zip":
                xs = [self.concrete_items(st, a) for a in v.args]
                if any(x is None for x in xs):
                    return None
                return [Tup(z) for z in zip(*xs)]
            if v.kind == "reversed":
                xs = self.concrete_items(st, v.args[0])
                return xs[::-1] if xs is not None else None
            if v.kind == "map":
                xs = self.concrete_items(st, v.args[1])
                if xs is None or len(v.args) > 2:
                    return None
                return [(lambda s2, x=x: self.call(s2, v.args[0], [x], {}, None)) for x in xs]
        if isinstance(v, V) and v.t.op == "py" and isinstance(v.t.args[0], str):
            return None
        return None

    @staticmethod
    def shortest(ns):
        """number of rounds of a loop over several sequences at once"""
        out = None
        for n in ns:
            if n is None or n is out:
                continue
            out = n if out is None else t.ite(t.le0(t.sub(out, n)), out, n)
        return out

    def sym_iter(self, st, v, node):
        """(count term, elem(state, iota) -> value)."""
        if isinstance(v, RangeV):
            if v.st is ONE:
                n = t.sub(v.hi, v.lo)
            elif t.isnum(v.st) and v.st.args[0] == -1:
                n = t.sub(v.lo, v.hi)
            else:
                n = app("rangelen", v.lo, v.hi, v.st)
            return n, lambda x, i: V(t.add(v.lo, t.mul(v.st, i)))
        if isinstance(v, Ref):
            n = self.length(st, v)
            return n, lambda x, i: self.getitem(x, v, i, node)
        if isinstance(v, LRef):
            n = self.length(st, v)
            return n, lambda x, i: self.getitem(x, v, i, node)
        if isinstance(v, DRef):
            v = LazyIter("keys", v)
        if isinstance(v, Mapped):
            def el(x, i):
                return self.instantiate(x, v, i)
            return v.n, el
        if isinstance(v, LazyIter):
            if v.kind == "enumerate":
                n, e = self.sym_iter(st, v.args[0], node)
                return n, lambda x, i: Tup([V(t.add(v.args[1], i)), e(x, i)])
            if v.kind == "zip":
                subs = [self.sym_iter(st, a, node) for a in v.args]
                return self.shortest([n for n, _ in subs]), lambda x, i: Tup([e(x, i) for _, e in subs])
            if v.kind == "map":
                subs = [self.sym_iter(st, a, node) for a in v.args[1:]]
                return self.shortest([n for n, _ in subs]), lambda x, i: self.call(x, v.args[0], [e(x, i) for _, e in subs], {}, node)
            if v.kind == "reversed":
                n, e = self.sym_iter(st, v.args[0], node)
                return n, lambda x, i: e(x, t.sub(t.sub(n, ONE), i))
            if v.kind == "gen":
                g, env = v.args[0], v.args[1]
                if len(g.generators) == 1 and not g.generators[0].ifs:
                    src = v.args[2]
                    n, e = self.sym_iter(st, src, node)

                    def el(x, i):
                        saved = x.env
                        x.env = dict(env)
                        self.assign(g.generators[0].target, e(x, i), x, node)
                        r = self.eval(g.elt, x)
                        x.env = saved
                        return r
                    return n, el
            if v.kind in ("keys", "values", "items"):
                cont = self.read(st, v.args[0])
                n = self.dlen(cont)
                rows = drows(cont)
                if n is None:
                    n = app("len", cont)

                def el(x, i):
                    c2 = self.read(x, v.args[0])
                    r2 = drows(c2)
                    k = V(i) if rows is not None else V(app("dkey", cont, i))
                    if v.kind == "keys":
                        return k
                    vv = self.dict_get(x, v.args[0], k.t, node)
                    return vv if v.kind == "values" else Tup([k, vv])
                return n, el
        if isinstance(v, VIte):
            n1, e1 = self.sym_iter(st, v.a, node)
            n2, e2 = self.sym_iter(st, v.b, node)
            return ite(v.c, n1, n2), lambda x, i: self.join_val(v.c, x, e1(x, i), x, e2(x, i))
        x0 = self.read(st, v)
        return app("len", x0), lambda x, i: V(idx(x0, i))

    def instantiate(self, st, m, i):
        """Copy of a pool result template at index i into st."""
        if m.unordered:
            i = app("perm", i)
        def go(v):
            if isinstance(v, V):
                return V(t.subst(v.t, {m.iota: i}))
            if isinstance(v, Tup):
                return Tup([go(x) for x in v.items])
            if isinstance(v, Ref):
                x = self.read_heap(m.heap, v)
                return self.newarr(st, t.subst(x, {m.iota: i}), v.rk)
            if isinstance(v, VIte):
                return VIte(t.subst(v.c, {m.iota: i}), go(v.a), go(v.b))
            return V(t.subst(self.read_heap(m.heap, v), {m.iota: i}))
        return go(m.tmpl)

    def loop(self, node, st, head, body, n):
        """Generic loop.  head(state)->cond term (while) or None; n: count term (for)."""
        key = self.ctx + (("L%s" % getattr(node, "lineno", 0)) + "." + str(getattr(node, "col_offset", 0)),)
        skey = "/".join(key)
        iota = mk("iota", skey)
        base = st
        ev0 = len(self.events)
        im0 = len(self.imprecise)
        pd0 = len(self.pending)
        changed = {}
        oldctx = self.ctx
        self.ctx = key
        self.loopdepth += 1
        result = None
        for pas in range(9):
            del self.events[ev0:]
            del self.imprecise[im0:]
            del self.pending[pd0:]
            hs = base.fork()
            phis = self.apply_phis(hs, base, changed, skey, iota)
            exit_st = None
            if head is not None:
                c = head(hs)
                if c is not TRUE:
                    exit_st = hs.fork(not_(c)) if c is not FALSE else hs.fork()
                bst = hs.fork(c) if c is not FALSE else None
            else:
                c = None
                exit_st = hs.fork()
                bst = hs.fork(t.lt(iota, n))
            self.loops[skey] = dict(node=node, n=n, cond=c, iota=iota, func=self.stack[-1][0] if self.stack else None)
            if bst is None:
                out = Outcome(None)
                back = None
            else:
                out = body(bst, iota)
                conts = out.continues + ([out.normal] if out.normal is not None else [])
                back = self.fold(conts, hs.guard) if conts else None
            new = self.diff(base, hs, back, changed, phis, skey, iota, pas) if back is not None else {}
            L = self.loops[skey]
            n0 = len(hs.guard)
            L["conts"] = [and_(*[g for g, k in x.guard[n0:] if k == "b"]) for x in (out.continues + ([out.normal] if out.normal is not None else []))]
            L["falls"] = out.normal is not None
            L["breaks"] = [and_(*[g for g, k in x.guard[n0:] if k == "b"]) for x in out.breaks]
            L["rets"] = [and_(*[g for g, k in x[0].guard[n0:] if k == "b"]) for x in out.returns]
            L["phis"] = list(phis.values())
            if new == changed:
                result = (hs, exit_st, out, back)
                break
            changed = new
        else:
            self.note("loop did not stabilise", node)
            result = (hs, exit_st, out, back)
        self.ctx = oldctx
        self.loopdepth -= 1
        hs, exit_st, out, back = result
        # closed forms at a normal exit of a counted loop without early exits
        if n is not None and exit_st is not None:
            self.close_forms(exit_st, base, changed, skey, iota, n, bool(out.breaks or out.returns))
        res = Outcome(None)
        res.returns = out.returns
        res.raises = out.raises
        exits = ([exit_st] if exit_st is not None else []) + out.breaks
        if exits:
            if exit_st is not None and n is not None and out.breaks:
                # head exit is taken when the count is exhausted
                exit_st.guard = exit_st.guard + ((t.le(n, iota), "b"),)
            res.normal = self.fold(exits, base.guard)
            self.loops[skey]["exits"] = len(exits)
        return res

    def phi(self, skey, what):
        return mk("phi", skey, what)

    def apply_phis(self, hs, base, changed, skey, iota):
        phis = {}
        for key, how in changed.items():
            kind = key[0]
            if kind == "env":
                name = key[1]
                iv = base.env.get(name)
                p = self.phi(skey, name)
                hs.env[name] = self.phi_value(hs, base, iv, how, p, iota, phis, key)
            elif kind == "cell":
                c = hs.heap.get(key[1])
                if c is None:
                    continue
                p = self.phi(skey, "cell%d" % key[1])
                hs.heap[key[1]] = self.phi_cell(base, c, how, p, iota, phis, key)
            elif kind == "attr":
                c = hs.heap.get(key[1])
                if c is None:
                    continue
                p = self.phi(skey, "%s.%s" % (key[1], key[2]))
                at = dict(c.attrs)
                at[key[2]] = self.phi_value(hs, base, c.attrs.get(key[2]), how, p, iota, phis, key)
                hs.heap[key[1]] = c.upd(attrs=at)
        return phis

    def phi_value(self, hs, base, iv, how, p, iota, phis, key):
        k = how[0]
        if k == "lin":
            return V(t.add(how[2], t.mul(how[1], iota)))
        if k in ("scalar", "scalar!"):
            init = self.read(base, iv) if iv is not None else app("unset", py(str(key)))
            arr.RANK[p] = how[1]
            self.phis[p] = dict(init=init, back=None, key=key, skey=p.args[0])
            phis[key] = p
            return V(p)
        if k == "arr":
            init = self.read(base, iv) if iv is not None else app("unset", py(str(key)))
            arr.RANK[p] = how[1]
            if how[2] is not None:
                arr.NROWS[p] = how[2](iota)
            else:
                arr.NROWS.pop(p, None)
            self.phis[p] = dict(init=init, back=None, key=key, skey=p.args[0])
            phis[key] = p
            al = frozenset(how[3])
            r = self.newarr(hs, p, how[1], aliases=al)
            return r
        if k == "list":
            init = self.read(base, iv) if iv is not None else app("unset", py(str(key)))
            self.phis[p] = dict(init=init, back=None, key=key, skey=p.args[0])
            phis[key] = p
            if how[2] is not None:
                arr.NROWS[p] = how[2](iota)
            cid = self.new(hs, kind=how[1], content=p, members=frozenset(how[3]))
            return LRef(cid) if how[1] == "list" else DRef(cid)
        if k == "tup":
            items = []
            ivs = iv.items if isinstance(iv, Tup) else [None] * len(how[1])
            for i, h in enumerate(how[1]):
                items.append(self.phi_value(hs, base, ivs[i], h, mk("phi", p.args[0], "%s#%d" % (p.args[1], i)), iota, phis, key + (i,)) if h is not None else ivs[i])
            return Tup(items)
        if k == "keep":
            return iv
        return V(havoc("phi"))

    def phi_cell(self, base, c, how, p, iota, phis, key):
        if c.kind in ("obj", "class", "module"):
            return c
        vr = {"list": LRef, "dict": DRef}.get(c.kind, None)
        init = self.read(base, vr(key[1])) if vr else (c.content if c.content is not None else NONE)
        if how[0] == "lin":
            return c.upd(content=t.add(how[2], t.mul(how[1], iota)), items=None)
        if how[0] == "rng":
            return c.upd(content=app("rngiter", init, how[1], iota))
        arr.RANK[p] = c.rank if c.kind == "arr" else None
        if how[0] == "arr" and how[2] is not None:
            arr.NROWS[p] = how[2](iota)
        elif c.kind == "arr":
            if c.nrows is not None:
                arr.NROWS[p] = c.nrows
            elif init.op not in ("num", "havoc"):
                arr.NROWS[p] = nrows(init)
            else:
                arr.NROWS.pop(p, None)
        self.phis[p] = dict(init=init, back=None, key=key, skey=p.args[0])
        phis[key] = p
        return c.upd(content=p, items=None, members=c.members | frozenset(how[3] if len(how) > 3 else ()))

    def classify(self, base, hs, iv, hv, back, bv, cur, p, iota, key):
        """How to represent a loop-carried value; None when unchanged."""
        if isinstance(bv, Tup) and (isinstance(iv, Tup) or iv is None) and (iv is None or len(iv.items) == len(bv.items)):
            hows = []
            for i, b in enumerate(bv.items):
                ivi = iv.items[i] if iv is not None else None
                hvi = hv.items[i] if isinstance(hv, Tup) else None
                h = self.classify(base, hs, ivi, hvi, back, b, None, mk("phi", p.args[0], "%s#%d" % (p.args[1], i)), iota, key + (i,))
                hows.append(h)
            if all(h is None for h in hows):
                return None
            return ("tup", tuple(hows))
        if isinstance(bv, (Fn, Cls, Ext, Mod, Lam, Bound, RangeV, LazyIter, Partial, ExtM)) :
            return ("keep",)
        if isinstance(bv, ORef):
            return ("keep",)
        if isinstance(bv, (LRef, DRef)) or isinstance(iv, (LRef, DRef)):
            if isinstance(iv, (LRef, DRef)) and isinstance(bv, (LRef, DRef)) and iv.cid == bv.cid:
                return None
            mem = set()
            for s, v in ((base, iv), (back, bv)):
                if v is not None:
                    mem |= self.roots(s, v)
            mem = {a for a in mem if a in base.heap}
            kd = "list" if isinstance(bv, LRef) or isinstance(iv, LRef) else "dict"
            return ("list", kd, None, tuple(sorted(mem)))
        if isinstance(bv, (Ref, VIte)) or isinstance(iv, (Ref,)):
            bt = self.read(back, bv)
            it = self.read(base, iv) if iv is not None else None
            rk = None
            for s, v in ((base, iv), (back, bv)):
                r = self.vrank(s, v) if v is not None else None
                if r is not None:
                    rk = r if rk is None else max(rk, r)
            al = set()
            for s, v in ((base, iv), (back, bv)):
                if v is not None:
                    al |= self.roots(s, v)
            al = {a for a in al if a in base.heap}
            nr = None
            if it is not None:
                ni = self.vlen(base, iv)
                if bt.op == "stack" and bt.args and bt.args[0] == ("mat", p) and all(k == "row" for k, _ in bt.args[1:]):
                    k = len(bt.args) - 1
                    nr = _LinN(ni, k)
                else:
                    nb = self.vlen(back, bv)
                    if nb is ni and ni is not None and ni.op != "app" or (nb is ni):
                        nr = _LinN(ni, 0)
            return ("arr", rk, nr, tuple(sorted(al)))
        # scalar
        bt = self.read(back, bv)
        it = self.read(base, iv) if iv is not None else None
        if it is not None and cur is not None and cur[0] == "scalar" and bt.op in ("poly", "phi"):
            d = t.sub(bt, p)
            if t.isnum(d) and d is not ZERO:
                return ("lin", d, it)
        if cur is not None and cur[0] == "lin":
            cv = t.add(cur[2], t.mul(cur[1], iota))
            if t.sub(bt, cv) is cur[1]:
                return cur
        r1 = rank(bt)
        if it is not None:
            r0 = rank(it)
            r1 = r1 if r0 is None else (r0 if r1 is None else max(r0, r1))
        return ("scalar", r1)

    def vrank(self, st, v):
        if isinstance(v, V):
            return rank(v.t)
        if isinstance(v, Ref):
            return v.rk
        if isinstance(v, VIte):
            a, b = self.vrank(st, v.a), self.vrank(st, v.b)
            if a is None or b is None:
                return a if b is None else b
            return max(a, b)
        return None

    def vlen(self, st, v):
        if isinstance(v, Ref):
            return self.length(st, v)
        return nrows(self.read(st, v))

    def same(self, s1, v1, s2, v2):
        if v1 is v2:
            return True
        if v1 is None or v2 is None:
            return False
        if isinstance(v1, V) and isinstance(v2, V):
            return v1.t is v2.t
        if isinstance(v1, Ref) and isinstance(v2, Ref):
            return v1.cid == v2.cid and v1.path == v2.path
        if isinstance(v1, (LRef, DRef, ORef)) and type(v1) is type(v2):
            return v1.cid == v2.cid
        if isinstance(v1, Tup) and isinstance(v2, Tup) and len(v1.items) == len(v2.items):
            return all(self.same(s1, a, s2, b) for a, b in zip(v1.items, v2.items))
        if isinstance(v1, VIte) and isinstance(v2, VIte):
            return v1.c is v2.c and self.same(s1, v1.a, s2, v2.a) and self.same(s1, v1.b, s2, v2.b)
        if isinstance(v1, Fn) and isinstance(v2, Fn):
            return v1.f is v2.f
        if isinstance(v1, Ext) and isinstance(v2, Ext):
            return v1.name == v2.name
        if isinstance(v1, Cls) and isinstance(v2, Cls):
            return v1.c is v2.c
        if isinstance(v1, Mod) and isinstance(v2, Mod):
            return v1.m is v2.m
        return False

    def diff(self, base, hs, back, changed, phis, skey, iota, pas):
        new = {}

        def consider(key, iv, hv, bv, what):
            cur = changed.get(key)
            p = self.phi(skey, what)
            if cur is None:
                if self.same(hs, hv, back, bv):
                    return
            else:
                # record back edge
                if key in phis and p in self.phis and not (isinstance(bv, Tup)):
                    self.phis[p]["back"] = self.read(back, bv) if bv is not None else None
                if cur[0] in ("scalar",) and bv is not None and isinstance(bv, V) and bv.t is p and iv is not None and pas < 6:
                    return  # invariant after all
            if bv is None:
                if cur is not None:
                    new[key] = cur
                return
            h = self.classify(base, hs, iv, hv, back, bv, cur, p, iota, key)
            if h is None:
                return
            if cur is not None and cur[0] == "lin" and h != cur:
                h = ("scalar!", h[1]) if h[0] == "scalar" else h
            if cur is not None and cur[0] == "scalar!":
                h = cur
            new[key] = h

        for name in set(back.env) | set(hs.env):
            if name.startswith("$"):
                continue
            bv = back.env.get(name)
            hv = hs.env.get(name)
            consider(("env", name), base.env.get(name), hv, bv, name)
        for cid, bc in back.heap.items():
            hc = hs.heap.get(cid)
            c0 = base.heap.get(cid)
            if c0 is None or hc is None:
                continue
            if bc.kind in ("obj", "class", "module"):
                if bc is hc and not any(k[0] == "attr" and k[1] == cid for k in changed):
                    continue
                for a in set(bc.attrs) | set(hc.attrs):
                    consider(("attr", cid, a), c0.attrs.get(a), hc.attrs.get(a), bc.attrs.get(a), "%s.%s" % (cid, a))
                continue
            key = ("cell", cid)
            cur = changed.get(key)
            vr = {"list": LRef, "dict": DRef}.get(bc.kind)
            b = self.read(back, vr(cid)) if vr else bc.content
            h0 = self.read(hs, vr(cid)) if vr else hc.content
            p = self.phi(skey, "cell%d" % cid)
            if cur is None:
                if b is h0:
                    continue
            elif p in self.phis and key in phis:
                self.phis[p]["back"] = b
                if b is p and pas < 6:
                    continue
            if bc.kind == "rng" and cur is not None and cur[0] != "rng!":
                src = p if cur[0] == "arr" else hc.content
                if b is not src:
                    hole = sym("<rng>")
                    kd = app("rngstep", t.subst(b, {src: hole}))
                    if not t.has(kd, lambda y: y is iota or y.op == "phi" and y.args[0] == skey or y is src):
                        new[key] = ("rng", kd)
                        continue
            if cur is not None and cur[0] in ("rng", "rng!"):
                new[key] = ("rng!", None, None, ())
                continue
            if cur is not None and cur[0] == "lin":
                cv = t.add(cur[2], t.mul(cur[1], iota))
                new[key] = cur if t.sub(b, cv) is cur[1] else ("arr", None, None, ())
                continue
            nr = None
            rows_b, rows_p = b, p
            init = self.read(base, vr(cid)) if vr else c0.content
            if bc.kind == "dict":
                rb = drows(b)
                ri = drows(init)
                if rb is not None and ri is not None and rb.op == "stack" and rb.args and rb.args[0][0] == "mat" and all(k == "row" for k, _ in rb.args[1:]):
                    nr = _LinN(nrows(ri), len(rb.args) - 1)
                elif ri is not None and b.op == "app" and b.args[0] == "dstore" and b.args[1] is p and b.args[2] is t.add(nrows(ri), iota):
                    nr = _LinN(nrows(ri), 1)
            elif b is not None and b.op == "stack" and b.args and b.args[0] == ("mat", p) and all(k == "row" for k, _ in b.args[1:]):
                nr = _LinN(nrows(init), len(b.args) - 1)
            new[key] = ("arr", bc.rank, nr, tuple(sorted(m for m in bc.members - c0.members if m in base.heap)) if bc.kind in ("list", "dict") else ())
            if cur is not None and cur[0] == "arr" and cur[2] is not None and new[key][2] is None and bc.kind != "dict":
                pass
        return new

    def close_forms(self, ex, base, changed, skey, iota, n, early):
        """Replace phi terms by closed forms at the normal exit of a counted loop."""
        m = {}
        for key, how in changed.items():
            if how[0] == "lin":
                fin = t.add(how[2], t.mul(how[1], n))
                if key[0] == "env":
                    ex.env[key[1]] = V(fin)
                elif key[0] == "attr":
                    c = ex.heap[key[1]]
                    at = dict(c.attrs)
                    at[key[2]] = V(fin)
                    ex.heap[key[1]] = c.upd(attrs=at)
                elif key[0] == "cell":
                    ex.heap[key[1]] = ex.heap[key[1]].upd(content=fin)
            if how[0] == "rng":
                c = ex.heap[key[1]]
                ex.heap[key[1]] = c.upd(content=t.subst(c.content, {iota: n}))
        if early:
            return
        for p, info in list(self.phis.items()):
            if p.args[0] != skey or info["back"] is None:
                continue
            b, init = info["back"], info["init"]
            d = None
            if b.op == "stack" and b.args and b.args[0] == ("mat", p) and all(k == "row" for k, _ in b.args[1:]) and len(b.args) == 2:
                row = b.args[1][1]
                if not t.has(row, lambda y: y.op == "phi" and y.args[0] == skey):
                    c = arr.comp(n, row, iota)
                    m[p] = t.stack(*((init.args if init.op == "stack" else (("mat", init),)) + (("mat", c),)))
                    if m[p].op == "stack" and len(m[p].args) == 1 and m[p].args[0][0] == "mat":
                        m[p] = m[p].args[0][1]
                continue
            dr = drows(b)
            if dr is not None and b is not p and dr.op == "stack" and dr.args and dr.args[0][0] == "mat" and dr.args[0][1] is drows(p) and len(dr.args) == 2:
                row = dr.args[1][1]
                if not t.has(row, lambda y: y.op == "phi" and y.args[0] == skey):
                    ri = drows(init)
                    c = arr.comp(n, row, iota)
                    rr = t.stack(*((ri.args if ri.op == "stack" else (("mat", ri),)) + (("mat", c),)))
                    if len(rr.args) == 1 and rr.args[0][0] == "mat":
                        rr = rr.args[0][1]
                    m[p] = app("drows", rr)
                continue
            if b.op == "app" and b.args[0] == "dstore" and b.args[1] is p:
                # element-wise update of every key
                k, v = b.args[2], b.args[3]
                if v.op == "app" and v.args[0] == "dget" and v.args[1] is p and v.args[2] is k:
                    m[p] = init
                    continue
                g = app("dget", p, k)
                if not t.has(v, lambda y: y is g):
                    kv = mk("tuple", k, v)
                    if not t.has(kv, lambda y: y.op == "phi" and y.args[0] == skey) and init.op == "app" and init.args[0] == "dict" and len(init.args) == 1:
                        m[p] = app("dictof", arr.comp(n, kv, iota))
                    continue
                hole = mk("bv", arr.bvdepth(v) + 1)
                body = t.subst(v, {g: hole})
                if not t.has(body, lambda y: y.op == "phi" and y.args[0] == skey):
                    m[p] = app("mapvals", init, body) if body is not hole else init
                    continue
            if b.op in ("poly", "phi"):
                d = t.sub(b, p)
                if d is not ZERO and not t.has(d, lambda y: y.op == "phi" and y.args[0] == skey):
                    m[p] = t.add(init, arr.sumover(n, d, iota))
        if m:
            memo = {}
            self.subst_state(ex, m, memo)

    def subst_state(self, st, m, memo):
        def g(x):
            return t.subst(x, m, memo)

        def go(v):
            if isinstance(v, V):
                return V(g(v.t))
            if isinstance(v, Tup):
                return Tup([go(x) for x in v.items])
            if isinstance(v, VIte):
                return VIte(g(v.c), go(v.a), go(v.b))
            if isinstance(v, Ref) and v.path:
                return Ref(v.cid, tuple(g(p) for p in v.path), v.rk)
            return v
        for k, v in list(st.env.items()):
            if isinstance(v, Val):
                st.env[k] = go(v)
        for cid, c in list(st.heap.items()):
            kw = {}
            if c.content is not None:
                x = g(c.content)
                if x is not c.content:
                    kw["content"] = x
            if c.nrows is not None:
                kw["nrows"] = g(c.nrows)
            if c.attrs:
                at = {k: go(v) for k, v in c.attrs.items()}
                kw["attrs"] = at
            if c.items:
                kw["items"] = tuple((x[0], go(x[1])) if isinstance(x, tuple) else go(x) for x in c.items)
            if kw:
                st.heap[cid] = c.upd(**kw)

    # -------------------------------------------------------------- expressions
    def eval(self, e, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise StopAnalysis("analysis budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("unsupported expression " + type(e).__name__, e)
            return V(havoc(type(e).__name__))
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return V(py("..."))
        return V(const(e.value))

    def e_Name(self, e, st):
        return self.lookup(st, e.id, e)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.read(st, self.eval(v.value, st)))
            else:
                parts.append(py(v.value))
        return V(app("str", *parts))

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            items = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, st)
                    c = self.concrete_items(st, v)
                    if c is None:
                        return V(app("startuple", self.read(st, v)))
                    items += c
                else:
                    items.append(self.eval(x, st))
            return Tup(items)
        return Tup([self.eval(x, st) for x in e.elts])

    def e_List(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                c = self.concrete_items(st, v)
                if c is None:
                    cid = self.new(st, kind="list", content=app("starlist", self.read(st, v)), items=None)
                    return LRef(cid)
                items += c
            else:
                items.append(self.eval(x, st))
        cid = self.new(st, kind="list", items=tuple(items), site=e.lineno)
        return LRef(cid)

    def e_Set(self, e, st):
        return Tup([self.eval(x, st) for x in e.elts])

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.eval(v, st)
                if isinstance(vv, DRef) and st.heap[vv.cid].items is not None:
                    items += list(st.heap[vv.cid].items)
                    continue
                cid = self.new(st, kind="dict", content=app("dictmerge", self.read(st, vv)), items=None)
                return DRef(cid)
            kk = self.read(st, self.eval(k, st))
            items.append((kk, self.eval(v, st)))
        cid = self.new(st, kind="dict", items=tuple(items), site=e.lineno)
        return DRef(cid)

    def e_Lambda(self, e, st):
        return Lam(e, st.env, self.stack[-1][0])

    def e_IfExp(self, e, st):
        c = self.truth(st, self.eval(e.test, st))
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        base = st.guard
        s1, s2 = st.fork(c), st.fork(not_(c))
        v1, v2 = self.eval(e.body, s1), self.eval(e.orelse, s2)
        j, v = self.join2(c, s1, s2, base, v1, v2)
        st.set(j)
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        saved = st.guard
        conds = []
        for i, x in enumerate(e.values):
            v = self.eval(x, st)
            c = self.truth(st, v)
            vals.append(v)
            conds.append(c)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                st.guard = saved
                if i == 0 or all(z.op == "bool" for z in conds):
                    return v
                break
            lit = c if isand else not_(c)
            if lit is not TRUE:
                st.guard = st.guard + tuple((z, "b") for z in t.lits(lit))
        st.guard = saved
        boolish = all(isinstance(v, V) and (v.t.op in t.BOOLISH or v.t.op in ("app", "phi", "havoc", "ite")) for v in vals)
        if boolish:
            return V((and_ if isand else or_)(*conds))
        # value semantics: a or b
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = self.join_val(c, st, r, st, v) if isand else self.join_val(c, st, v, st, r)
        return r

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return V(not_(self.truth(st, v)))
        x = self.read(st, v)
        if isinstance(e.op, ast.USub):
            return self.wrap(st, t.neg(x), self.vrank(st, v))
        if isinstance(e.op, ast.Invert):
            return self.wrap(st, not_(x), self.vrank(st, v))
        return v

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(st, e.op, a, b, e)

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, LRef) and isinstance(b, LRef):
                ca, cb = st.heap[a.cid], st.heap[b.cid]
                if ca.items is not None and cb.items is not None:
                    return LRef(self.new(st, kind="list", items=ca.items + cb.items))
                xa, xb = self.read(st, a), self.read(st, b)
                return LRef(self.new(st, kind="list", content=t.stack(("mat", xa), ("mat", xb)), members=frozenset(self.roots(st, a) | self.roots(st, b))))
            if isinstance(a, Tup) and isinstance(b, V):
                return V(app("tupcat", self.read(st, a), b.t))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (LRef, Tup)) and isinstance(y, V) and t.isnum(y.t):
                    items = self.concrete_items(st, x)
                    k = int(y.t.args[0])
                    if items is not None and len(items) * max(k, 0) <= 16:
                        if isinstance(x, Tup):
                            return Tup(items * k)
                        return LRef(self.new(st, kind="list", items=tuple(items * k)))
                elif isinstance(x, LRef) and isinstance(y, V) and (self.vrank(st, y) or 0) == 0:
                    items = self.concrete_items(st, x)
                    if items is not None and len(items) == 1:
                        c = mk("comp", y.t, self.read(st, items[0]))
                    else:
                        c = app("listrep", self.read(st, x), y.t)
                    return LRef(self.new(st, kind="list", content=c, members=frozenset(self.roots(st, x))))
        x, y = self.read(st, a), self.read(st, b)
        ra, rb = self.vrank(st, a), self.vrank(st, b)
        rk = None if ra is None or rb is None else max(ra, rb)
        if rk is None and (ra or 0) >= 1 and (rb is None or (ra or 0) >= (rb or 0)):
            rk = ra if rb is not None else None
        x, y = self.npm.align(x, y)
        if isinstance(op, ast.Add):
            if _isstr(x) or _isstr(y):
                return V(app("str", x, y))
            r = t.add(x, y)
        elif isinstance(op, ast.Sub):
            r = t.sub(x, y)
        elif isinstance(op, ast.Mult):
            r = t.mul(x, y)
        elif isinstance(op, ast.Div):
            r = t.div(x, y)
        elif isinstance(op, ast.Pow):
            r = t.power(x, y)
        elif isinstance(op, ast.BitAnd):
            r = and_(x, y)
        elif isinstance(op, ast.BitOr):
            r = or_(x, y)
        elif isinstance(op, ast.Mod):
            if _isstr(x):
                return V(app("str", x, y))
            r = app("mod", x, y)
        elif isinstance(op, ast.FloorDiv):
            r = app("floordiv", x, y)
        elif isinstance(op, ast.MatMult):
            from . import npmodel
            v = npmodel.inner(self, st, [a, b], {}, node)
            return v if v is not None else self.wrap(st, app("matmul", x, y), None)
        elif isinstance(op, ast.BitXor):
            r = app("xor", x, y)
        else:
            r = app("binop:" + type(op).__name__, x, y)
        if rk == 0:
            return V(r)
        if rk is None:
            rk = rank(r)
            if rk == 0:
                return V(r)
        ref = self.newarr(st, r, rk, node=node)
        if r.op in ("num",):
            # keep the length of a constant-filled result
            for v in (a, b):
                if isinstance(v, Ref) and not v.path and st.heap[v.cid].nrows is not None:
                    st.heap[ref.cid] = st.heap[ref.cid].upd(nrows=st.heap[v.cid].nrows)
        return ref

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        rks = [self.vrank(st, left)]
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            rks.append(self.vrank(st, right))
            out.append(self.compare(st, op, left, right, e))
            left = right
        c = and_(*out) if len(out) > 1 else out[0]
        if isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return V(c)
        rk = 0
        for r in rks:
            if r is not None and r >= 1:
                rk = max(rk, r)
        if rk >= 1 and c.op != "bool":
            return self.newarr(st, c, rk)
        return V(c)

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(st, a, b)
            return c if isinstance(op, ast.Is) else not_(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(st, a, b)
            return c if isinstance(op, ast.In) else not_(c)
        x, y = self.read(st, a), self.read(st, b)
        x, y = self.npm.align(x, y)
        if isinstance(op, ast.Lt):
            return t.lt(x, y)
        if isinstance(op, ast.LtE):
            return t.le(x, y)
        if isinstance(op, ast.Gt):
            return t.lt(y, x)
        if isinstance(op, ast.GtE):
            return t.le(y, x)
        if isinstance(a, (Tup, LRef)) or isinstance(b, (Tup, LRef)) or x.op == "tuple" or y.op == "tuple":
            c = self.tup_eq(x, y)
        else:
            c = self.simp(st, t.eq(x, y))
        return c if isinstance(op, ast.Eq) else not_(c)

    def tup_eq(self, x, y):
        if x is y:
            return TRUE
        if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
            return and_(*[t.eq(a, b) for a, b in zip(x.args, y.args)])
        return mk("eq", *sorted((x, y), key=lambda z: z.id))

    def is_(self, st, a, b):
        if isinstance(a, VIte):
            return ite(a.c, self.is_(st, a.a, b), self.is_(st, a.b, b))
        if isinstance(b, V) and b.t is NONE or isinstance(a, V) and a.t is NONE:
            o = a if isinstance(b, V) and b.t is NONE else b
            if isinstance(o, V):
                return t.is_none(o.t)
            if isinstance(o, Ref):
                return self.none_leaf(self.read(st, o))
            return FALSE
        x, y = self.read(st, a), self.read(st, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid and a.path == b.path:
            return TRUE
        if x.op == "bool" and y.op == "bool":
            return t.boolc(x is y)
        if y.op == "bool" or x.op == "bool":
            x, y = (x, y) if y.op == "bool" else (y, x)
            if x.op in t.BOOLISH:
                return x if y is TRUE else not_(x)
            return mk("is", x, y)
        if y is NAN or x is NAN:
            o = x if y is NAN else y
            if o is NAN:
                return TRUE
            if o.op in ("num", "poly"):
                return FALSE
            if isinstance(a if y is NAN else b, Ref) and o.op != "phi":
                return FALSE
        if x is y and not (isinstance(a, Ref) or isinstance(b, Ref)):
            return TRUE
        return mk("is", *sorted((x, y), key=lambda z: z.id))

    def none_leaf(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.none_leaf(x.args[1]), self.none_leaf(x.args[2]))
        return TRUE if x is NONE else FALSE

    def contains(self, st, a, b):
        x = self.read(st, a)
        if isinstance(b, (Tup, LRef)):
            items = self.concrete_items(st, b)
            if items is not None:
                return or_(*[t.eq(x, self.read(st, i)) for i in items])
        if isinstance(b, DRef) or (isinstance(b, LazyIter) and b.kind == "keys"):
            d = b if isinstance(b, DRef) else b.args[0]
            if isinstance(d, DRef):
                c = st.heap[d.cid]
                if c.items is not None:
                    if all(t.isconst(k) for k, _ in c.items) and t.isconst(x):
                        return t.boolc(any(k is x for k, _ in c.items))
                    return or_(*[t.eq(x, k) for k, _ in c.items])
        return app("in", x, self.read(st, b))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else V(NONE)
        self.do_yield(st, v, e)
        return V(NONE)

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        y = st.env.get("$yield")
        if isinstance(y, LRef):
            self.npm.list_extend(self, st, y, v, e)
        return V(NONE)

    def e_Slice(self, e, st):
        return V(self.index_term(e, st))

    def index_term(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: NONE if x is None else self.read(st, self.eval(x, st))
            return arr.slc(f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            return mk("tuple", *[self.index_term(x, st) for x in e.elts])
        v = self.eval(e, st)
        if isinstance(v, LRef):
            c = st.heap[v.cid]
            if c.items is not None:
                r = app("listidx", *[self.read(st, x) for x in c.items])
                arr.RANK[r] = 1
                return r
        x = self.read(st, v)
        if isinstance(v, LRef):
            arr.RANK.setdefault(x, 1)
        return x

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(o, Ext):
            if o.name in ("numpy.r_", "numpy.c_", "numpy.s_"):
                i = self.index_term(e.slice, st)
                if o.name == "numpy.s_":
                    return V(i)
                if o.name == "numpy.r_":
                    xs = list(i.args) if i.op == "tuple" else [i]
                    if len(xs) == 1 and xs[0].op != "slice":
                        return self.wrap(st, xs[0], 1)
                    return self.wrap(st, self.npm.concat1(xs), 1)
            self.eval(e.slice, st) if not isinstance(e.slice, ast.Slice) else None
            return V(app("ext[]", py(o.name)))
        if isinstance(e.value, ast.Attribute) and e.value.attr == "__dict__":
            ob = self.eval(e.value.value, st)
            k = self.read(st, self.eval(e.slice, st))
            if k.op == "py":
                return self.getattr(st, ob, k.args[0], e)
            return V(havoc("__dict__"))
        i = self.index_term(e.slice, st)
        return self.getitem(st, o, i, e)

    def getitem(self, st, o, i, node):
        if isinstance(o, VIte):
            return self.join_val(o.c, st, self.getitem(st, o.a, i, node), st, self.getitem(st, o.b, i, node))
        if isinstance(o, Tup):
            if t.isnum(i):
                k = int(i.args[0])
                if -len(o.items) <= k < len(o.items):
                    return o.items[k]
            if i.op == "slice" and all(x is NONE or t.isnum(x) for x in i.args):
                f = [None if x is NONE else int(x.args[0]) for x in i.args]
                return Tup(o.items[slice(*f)])
            return V(idx(self.read(st, o), i))
        if isinstance(o, Ref):
            c = st.heap.get(o.cid)
            base_rk = o.rk
            # fancy / mask indexing copies, basic indexing is a view
            basic = self.basic_index(i)
            if base_rk == 1 and basic and i.op not in ("slice", "tuple") and i is not NONE and not (i.op == "py" and i.args[0] == "..."):
                return V(idx(self.read(st, o), i))
            x = self.read(st, o)
            content = idx(x, i)
            rk = self.index_rank(base_rk, i)
            if rk is None:
                rk = rank(content)
            if rk == 0:
                return V(content)
            if basic:
                return Ref(o.cid, o.path + (i,), rk)
            return self.newarr(st, content, rk, dtype=c.dtype if c else None, node=node)
        if isinstance(o, LRef):
            c = st.heap[o.cid]
            if c.items is not None and t.isnum(i):
                k = int(i.args[0])
                if -len(c.items) <= k < len(c.items):
                    return c.items[k]
            if c.items is not None and i.op == "slice" and all(x is NONE or t.isnum(x) for x in i.args):
                f = [None if x is NONE else int(x.args[0]) for x in i.args]
                return LRef(self.new(st, kind="list", items=c.items[slice(*f)]))
            x = self.read(st, o)
            content = idx(x, i)
            if i.op == "slice":
                return LRef(self.new(st, kind="list", content=content, members=c.members))
            rk = rank(content)
            if rk == 0:
                return V(content)
            mem = set(c.members)
            if c.items is not None:
                for it in c.items:
                    mem |= self.roots(st, it)
            return self.newarr(st, content, rk, aliases=frozenset(mem))
        if isinstance(o, DRef):
            return self.dict_get(st, o, i, node)
        if isinstance(o, Mapped):
            if i.op == "slice":
                lo, hi, stp = i.args
                if lo in (NONE, ZERO) and stp in (NONE, ONE) and (hi is NONE or hi is o.n):
                    return o
                x = idx(self.read(st, o), i)
                return self.newarr(st, x, rank(x))
            return self.instantiate(st, o, i)
        if isinstance(o, V):
            if o.t.op == "py" and isinstance(o.t.args[0], str):
                if t.isnum(i):
                    try:
                        return V(py(o.t.args[0][int(i.args[0])]))
                    except Exception:
                        pass
            x = idx(o.t, i)
            rk = rank(x)
            return V(x)
        if isinstance(o, (RangeV,)):
            return V(t.add(o.lo, t.mul(o.st, i)))
        if isinstance(o, ORef):
            c = st.heap.get(o.cid)
            if c is not None and c.cls is not None:
                g = self.find_method(c.cls, "__getitem__")
                if g is not None:
                    return self.call_fn(st, Fn(g), [o, V(i)], {}, node)
            return V(app("getitem", self.read(st, o), i))
        return V(app("getitem", self.read(st, o), i))

    def dict_get(self, st, o, key, node):
        c = st.heap[o.cid]
        if c.items is not None:
            for k, v in c.items:
                if k is key:
                    return v
            if c.cls == "defaultdict-list" and t.isconst(key) and self.loopdepth == c.depth:
                l = LRef(self.new(st, kind="list", items=()))
                st.heap[o.cid] = c.upd(items=c.items + ((key, l),))
                return l
            if c.cls == "kwargs":
                return V(app("opt", key, app("required")))
        if c.cls == "defaultdict-list" or c.cls == "defaultdict":
            return DElem(o.cid, key)
        cont = self.read(st, o)
        rows = drows(cont)
        if rows is not None and (rank(key) == 0):
            content = idx(rows, key)
        else:
            content = app("dget", cont, key)
        mem = set(c.members)
        if c.items is not None:
            for _, v in c.items:
                mem |= self.roots(st, v)
        if not mem and c.origin and c.kind == "dict" and c.cls is None:
            return V(content)
        if mem or rank(content) != 0:
            return self.newarr(st, content, rank(content), aliases=frozenset(mem))
        return V(content)

    def basic_index(self, i):
        if i.op == "slice" or i is NONE:
            return True
        if i.op == "py":
            return True
        if i.op == "tuple":
            return all(self.basic_index(x) for x in i.args)
        if i.op in ("lt0", "le0", "eq0", "and", "or", "not", "eq"):
            return False
        if i.op == "app" and i.args[0] in ("listidx", "nonzero", "nonzero1", "np.ix_"):
            return False
        r = rank(i)
        return r == 0

    def index_rank(self, rk, i):
        if rk is None:
            return None
        if i.op == "slice":
            return rk
        if i is NONE:
            return rk + 1
        if i.op == "py":
            return rk
        if i.op == "tuple":
            r = rk
            fancy = 0
            for x in i.args:
                if x is NONE:
                    r += 1
                elif x.op == "slice" or x.op == "py":
                    pass
                elif self.basic_index(x):
                    r -= 1
                else:
                    rx = rank(x)
                    if rx is None:
                        return None
                    r -= 1
                    fancy = max(fancy, rx if not arr._boolish(x) else 1)
            return r + fancy
        if self.basic_index(i):
            return rk - 1
        if arr._boolish(i):
            ri = rank(i)
            return None if ri is None else rk - ri + 1
        ri = rank(i)
        return None if ri is None else rk - 1 + ri

    def length(self, st, v):
        if isinstance(v, Ref):
            c = st.heap.get(v.cid)
            if c is not None and not v.path and c.nrows is not None:
                return c.nrows
            if c is not None and c.nrows is not None and len(v.path) == 1 and v.path[0].op == "slice":
                lo, hi, s = v.path[0].args
                if s is NONE and (lo is NONE or t.isnum(lo) and lo.args[0] >= 0) and (hi is NONE or t.isnum(hi) and hi.args[0] < 0):
                    n = c.nrows
                    if hi is not NONE:
                        n = t.add(n, hi)
                    if lo is not NONE:
                        n = t.sub(n, lo)
                    return n
            return nrows(self.read(st, v))
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, LRef):
            c = st.heap[v.cid]
            if c.items is not None:
                return num(len(c.items))
            return nrows(c.content)
        if isinstance(v, DRef):
            c = st.heap[v.cid]
            if c.items is not None:
                return num(len(c.items))
            n = self.dlen(c.content)
            return n if n is not None else app("len", c.content)
        if isinstance(v, VIte):
            return ite(v.c, self.length(st, v.a), self.length(st, v.b))
        if isinstance(v, Mapped):
            return v.n
        if isinstance(v, RangeV):
            return self.sym_iter(st, v, None)[0]
        return nrows(self.read(st, v))

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(st, o, e.attr, e)

    def find_method(self, c, name, depth=0):
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            r = None
            if b in c.module.classes:
                r = ("class", c.module.classes[b])
            elif b.split(".")[0] in c.module.imports:
                d = c.module.imports[b.split(".")[0]] + ("." + b.split(".", 1)[1] if "." in b else "")
                r = self.prog.resolve(d)
            if r and r[0] == "class" and depth < 6:
                m = self.find_method(r[1], name, depth + 1)
                if m is not None:
                    return m
        return None

    def class_attr(self, st, c, name, depth=0):
        cell = st.heap.get(self.clscells.get(c.qual))
        if cell is not None and name in cell.attrs:
            return cell.attrs[name]
        for b in c.bases:
            if b in c.module.classes:
                v = self.class_attr(st, c.module.classes[b], name, depth + 1)
                if v is not None:
                    return v
            elif b.split(".")[0] in c.module.imports:
                r = self.prog.resolve(c.module.imports[b.split(".")[0]])
                if r[0] == "class":
                    v = self.class_attr(st, r[1], name, depth + 1)
                    if v is not None:
                        return v
        return None

    def getattr(self, st, o, name, node):
        if isinstance(o, VIte):
            return self.join_val(o.c, st, self.getattr(st, o.a, name, node), st, self.getattr(st, o.b, name, node))
        if isinstance(o, Mod):
            cell = st.heap.get(self.modcells[o.m.name])
            if cell and name in cell.attrs:
                return cell.attrs[name]
            return self.resolved(st, o.m.name + "." + name)
        if isinstance(o, Ext):
            return Ext(o.name + "." + name)
        if isinstance(o, Cls):
            m = self.find_method(o.c, name)
            if m is not None:
                if m.is_static:
                    return Fn(m)
                if m.is_class:
                    return Bound(o, Fn(m))
                return Fn(m)
            v = self.class_attr(st, o.c, name)
            if v is not None:
                return v
            if name == "__name__":
                return V(py(o.c.name))
            return V(app("clsattr", py(o.c.qual), py(name)))
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                r = self.prog.resolve(o.cls.module.imports.get(b, o.cls.module.name + "." + b))
                if r[0] == "class":
                    m = self.find_method(r[1], name)
                    if m is not None:
                        return Bound(o.obj, Fn(m))
            return Ext("builtin.object." + name)
        if isinstance(o, ORef):
            c = st.heap.get(o.cid)
            if c is None:
                return V(havoc("deadobj"))
            if c.kind in ("class", "module"):
                if name in c.attrs:
                    return c.attrs[name]
                if c.kind == "class":
                    return self.getattr(st, Cls(c.cls), name, node)
            if c.kind == "obj":
                if name in c.attrs:
                    return c.attrs[name]
                if name == "__class__":
                    return ORef(self.clscells[c.cls.qual]) if c.cls else V(havoc("cls"))
                if name == "__dict__":
                    return LazyIter("objdict", o)
                if c.cls is not None:
                    m = self.find_method(c.cls, name)
                    if m is not None:
                        if m.is_property:
                            return self.call_fn(st, Fn(m), [o], {}, node)
                        if m.is_static:
                            return Fn(m)
                        if m.is_class:
                            return Bound(Cls(c.cls), Fn(m))
                        return Bound(o, Fn(m))
                    v = self.class_attr(st, c.cls, name)
                    if v is not None:
                        return v
                pre = "@pre:%s.%s" % (c.origin or "obj", name)
                self.event(st, "readunset", c.origin, (o.cid, name), node)
                return V(sym(pre))
            return ExtM(o, name)
        if isinstance(o, LazyIter) and o.kind == "objdict":
            return ExtM(o, name)
        if isinstance(o, (Ref, LRef, DRef, DElem, V, Tup, RangeV, LazyIter, Mapped)):
            h = self.npm.attr(self, st, o, name, node)
            if h is not None:
                return h
            return ExtM(o, name)
        if isinstance(o, Fn):
            return ExtM(o, name)
        return ExtM(o, name)

    def setattr(self, st, o, name, v, node):
        if isinstance(o, VIte):
            self.setattr(st, o.a, name, v, node)
            self.setattr(st, o.b, name, v, node)
            return
        if isinstance(o, Cls):
            o = ORef(self.clscells[o.c.qual])
        if isinstance(o, Mod):
            o = ORef(self.modcells[o.m.name])
        if isinstance(o, ORef):
            c = st.heap.get(o.cid)
            if c is None or c.attrs is None:
                if c is not None:
                    self.event(st, "setattr", c.origin, (o.cid, name), node)
                return
            self.event(st, "setattr", c.origin, (o.cid, name), node)
            at = dict(c.attrs)
            at[name] = v
            st.heap[o.cid] = c.upd(attrs=at)
            return
        if isinstance(o, Ext):
            self.event(st, "setext", o.name + "." + name, None, node)
            return
        if isinstance(o, Fn):
            self.event(st, "setattr", "func:" + o.f.qual, (0, name), node)
            return
        if isinstance(o, Ref) and name in ("shape", "dtype", "flat", "T", "real", "imag"):
            if name in ("flat", "real", "imag"):
                self.write(st, o, None, v, node)
            else:
                self.event(st, "write", "meta", frozenset(self.roots(st, o)), node)
            return
        self.event(st, "setattr", "unknown", (0, name), node)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fi = self.stack[-1][0]
            selfname = fi.node.args.args[0].arg if fi.node.args.args else None
            return SuperV(st.env.get(selfname), fi.cls)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars", "globals") and e.func.id not in st.env and not e.args:
            self.note("reflection", e)
            return V(havoc("locals"))
        f = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                c = self.concrete_items(st, v)
                if c is None:
                    x = self.read(st, v)
                    args.append(("*", x, v))
                else:
                    args += [y(st) if callable(y) else y for y in c]
            else:
                args.append(self.eval(a, st))
        star = [a for a in args if isinstance(a, tuple)]
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if isinstance(v, DRef):
                    c = st.heap[v.cid]
                    if c.items is not None and all(kk.op == "py" for kk, _ in c.items):
                        for kk, vv in c.items:
                            kw[kk.args[0]] = vv
                        if c.cls == "kwargs":
                            kw["**"] = v
                        continue
                kw["**"] = v
            else:
                kw[k.arg] = v
        if star:
            args = [V(a[1]) if isinstance(a, tuple) else a for a in args]
            if isinstance(f, (Fn, Bound)) and len(star) == 1 and len(args) == 1:
                # f(*x): unpack x positionally
                fn = f.fn.f if isinstance(f, Bound) else f.f
                n = len(fn.node.args.args) - (1 if isinstance(f, Bound) else 0)
                vs = self.unpack(st, star[0][2], n, e)
                if vs is not None:
                    args = vs
        if any(getattr(self, "_dead", None) is st for _ in (0,)):
            return V(havoc("dead"))
        return self.call(st, f, args, kw, e)

    def call(self, st, f, args, kw, node):
        self.calls += 1
        if isinstance(f, VIte):
            # both callees under their guard
            base = st.guard
            s1, s2 = st.fork(f.c), st.fork(not_(f.c))
            v1 = self.call(s1, f.a, args, kw, node)
            v2 = self.call(s2, f.b, args, kw, node)
            j, v = self.join2(f.c, s1, s2, base, v1, v2)
            st.set(j)
            return v
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(st, f.fn, list(f.args) + list(args), k2, node)
        if isinstance(f, Lam):
            env = dict(f.env)
            a = f.node.args
            names = [x.arg for x in a.args]
            for n, v in zip(names, args):
                env[n] = v
            dn = names[len(names) - len(a.defaults):] if a.defaults else []
            for n, d in zip(dn, a.defaults):
                if n not in env or names.index(n) >= len(args):
                    if n not in kw:
                        env[n] = self.eval(d, State(st.heap, dict(f.env), st.guard, st.up))
            for k, v in kw.items():
                env[k] = v
            saved = st.env
            st.env = env
            self.stack.append((f.fi, node))
            try:
                r = self.eval(f.node.body, st)
            finally:
                self.stack.pop()
                st.env = saved
            return r
        if isinstance(f, Cls):
            return self.instantiate_cls(st, f.c, args, kw, node)
        if isinstance(f, ORef):
            c = st.heap.get(f.cid)
            if c is not None and c.kind == "class":
                return self.instantiate_cls(st, c.cls, args, kw, node)
            if c is not None and c.kind == "obj" and c.cls is not None:
                m = self.find_method(c.cls, "__call__")
                if m is not None:
                    return self.call_fn(st, Fn(m), [f] + list(args), kw, node)
            if c is not None and c.kind == "ext":
                return self.npm.ext_method(self, st, f, "__call__", args, kw, node)
        if isinstance(f, Ext):
            return self.npm.call_ext(self, st, f.name, args, kw, node)
        if isinstance(f, ExtM):
            return self.npm.call_method(self, st, f.obj, f.name, args, kw, node)
        # unknown callable
        x = self.read(st, f)
        self.may_raise(st, node, "call")
        return self.npm.opaque(self, st, "call", [V(x)] + list(args), kw, node)

    def instantiate_cls(self, st, c, args, kw, node):
        h = self.opaque.get(c.qual)
        if h is not None:
            return h(self, st, args, kw, node)
        cid = self.new(st, kind="obj", attrs={}, cls=c, origin="new:" + c.qual)
        o = ORef(cid)
        init = self.find_method(c, "__init__")
        if init is not None:
            self.call_fn(st, Fn(init), [o] + list(args), kw, node)
        return o

    def call_fn(self, st, fn, args, kw, node):
        f = fn.f
        h = self.opaque.get(f.qual)
        if h is not None:
            self.may_raise(st, node, f.qual)
            return h(self, st, args, kw, node)
        self.may_raise(st, node, f.qual)
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x[0] is f) >= 2:
            self.note("recursion cut at " + f.qual, node)
            return self.npm.opaque(self, st, "rec:" + f.qual, args, kw, node)
        self.analysed.add(f.qual)
        env = dict(fn.env) if fn.env else {}
        bound = self.bind(st, f, args, kw, node, env)
        if f.is_generator:
            # materialise eagerly (order of effects is that of full consumption)
            y = LRef(self.new(st, kind="list", items=()))
            env["$yield"] = y
        key = self.ctx
        self.ctx = self.ctx + (f.name + "@%s" % getattr(node, "lineno", "?") + "." + str(getattr(node, "col_offset", "?")),)
        self.stack.append((f, node))
        callee = State(st.heap, env, st.guard, State(st.heap, st.env, st.guard, st.up))
        base = st.guard
        try:
            o = self.exec_block(f.node.body, callee)
        finally:
            self.stack.pop()
            self.ctx = key
        rets = list(o.returns)
        if o.normal is not None:
            rets.append((o.normal, V(NONE)))
        if not rets:
            # always raises
            st.heap = callee.heap
            self._dead = st
            return V(havoc("noreturn"))
        acc, val = self.fold([r[0] for r in rets], base, [r[1] for r in rets])
        st.heap = acc.heap
        st.guard = acc.guard if len(acc.guard) >= len(base) else base
        # only facts survive into the caller
        st.guard = st.guard[: len(base)] + tuple((g, "f") for g, k in st.guard[len(base):])
        if f.is_generator:
            return env["$yield"]
        if f.is_cached:
            val = self.npm.cached_result(self, st, f, args, val, node)
        return val

    def bind(self, st, f, args, kw, node, env):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        pos = list(args)
        for n, v in zip(names, pos):
            env[n] = v
        extra = pos[len(names):]
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        rest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or k in konly:
                env[k] = v
            else:
                rest[k] = v
        dmap = {}
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        for n, d in zip(dn, a.defaults):
            dmap[n] = d
        for n, d in zip(konly, a.kw_defaults):
            if d is not None:
                dmap[n] = d
        given = set(names[: len(pos)]) | set(k for k in kw)
        for n in names + konly:
            if n not in given:
                if n in dmap:
                    env[n] = self.default_value(st, f, n, dmap[n])
                    src = kw.get("**")
                    if isinstance(src, DRef) and st.heap[src.cid].cls == "kwargs" and self.stack:
                        x = app("opt", py(n), self.read(st, env[n]))
                        arr.RANK[x] = 0
                        env[n] = V(x)
                elif n not in env:
                    env[n] = V(app("missing", py(n)))
        if a.kwarg is not None:
            src = kw.get("**")
            items = tuple((py(k), v) for k, v in rest.items())
            cls = None
            if isinstance(src, DRef) and st.heap[src.cid].cls == "kwargs":
                cls = "kwargs"
            env[a.kwarg.arg] = DRef(self.new(st, kind="dict", items=items, cls=cls))
        return env

    def default_value(self, st, f, name, d):
        """Default argument values are created once, at definition time."""
        key = ("default", f.qual, name)
        cache = self.__dict__.setdefault("_defaults", {})
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)):
            cid = cache.get(key)
            if cid is None or cid not in st.heap:
                v = self.eval_at_module(st, f, d)
                cid2 = getattr(v, "cid", None)
                if cid2 is not None and cid2 in st.heap:
                    st.heap[cid2] = st.heap[cid2].upd(origin="default:%s.%s" % (f.qual, name))
                    cache[key] = cid2
                return v
            c = st.heap[cid]
            return {"list": LRef, "dict": DRef, "arr": Ref}.get(c.kind, ORef)(cid)
        return self.eval_at_module(st, f, d)

    def eval_at_module(self, st, f, d):
        self.stack.append((f, d))
        try:
            s2 = State(st.heap, {}, (), None)
            return self.eval(d, s2)
        finally:
            self.stack.pop()

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            src = self.eval(e.generators[0].iter, st)
            return LazyIter("gen", e, st.env, src)
        return self.comp(e, st, "list")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        cid = self.new(st, kind=kind, items=(), site=e.lineno)
        ref = LRef(cid) if kind == "list" else DRef(cid)
        saved = st.env
        st.env = dict(saved)
        st.env["$comp%d" % cid] = ref

        def level(k, x):
            if k == len(e.generators):
                r = x.env["$comp%d" % cid]
                if kind == "list":
                    v = self.eval(e.elt, x)
                    self.comp_append(x, ref, v, e)
                else:
                    kk = self.read(x, self.eval(e.key, x))
                    v = self.eval(e.value, x)
                    self.comp_dstore(x, ref, kk, v, e)
                return Outcome(x)
            g = e.generators[k]
            itv = self.eval(g.iter, x)

            def body(y, v):
                self.assign(g.target, v, y, e)
                conds = []
                for c in g.ifs:
                    conds.append(self.truth(y, self.eval(c, y)))
                c = and_(*conds) if conds else TRUE
                if c is TRUE:
                    return level(k + 1, y)
                if c is FALSE:
                    return Outcome(y)
                s1 = y.fork(c)
                o = level(k + 1, s1)
                n = self.join(c, o.normal, y.fork(not_(c)), y.guard)
                return Outcome(n)
            class N:
                lineno = g.iter.lineno
                col_offset = g.iter.col_offset
            return self.for_loop(N, x, itv, body)

        o = level(0, st)
        if o.normal is not None:
            st.set(o.normal)
        env = dict(saved)
        st.env = env
        # drop internal write events on the comprehension's own list
        return ref

    def comp_append(self, st, ref, v, node):
        self.list_append(st, ref, v, node, quiet=True)

    def comp_dstore(self, st, ref, k, v, node):
        self.dict_store(st, ref, k, v, node)


def _pooled(v):
    if isinstance(v, Mapped):
        return True
    return isinstance(v, LazyIter) and any(_pooled(a) for a in v.args)


class _LinN:
    """n(iota) = init + k*iota, comparable."""
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def __call__(self, iota):
        return t.add(self.a, t.mul(num(self.k), iota))

    def __eq__(self, o):
        return isinstance(o, _LinN) and o.a is self.a and o.k == self.k

    def __hash__(self):
        return hash((self.a, self.k))


def drows(cont):
    """Rows of a dict whose keys are 0..n-1 in order, else None."""
    if cont is None:
        return None
    if cont.op == "app":
        if cont.args[0] == "drows":
            return cont.args[1]
        if cont.args[0] == "dict":
            rows = []
            for i, kv in enumerate(cont.args[1:]):
                if kv.args[0] is not num(i):
                    return None
                rows.append(("row", kv.args[1]))
            return t.stack(*rows)
    if cont.op == "phi" and cont in arr.NROWS:
        r = app("dictrows", cont)
        arr.NROWS[r] = arr.NROWS[cont]
        return r
    if cont.op == "ite":
        a, b = drows(cont.args[1]), drows(cont.args[2])
        if a is not None and b is not None:
            return ite(cont.args[0], a, b)
    return None


class FuncInfoTop:
    def __init__(self, m):
        self.module = m
        self.name = "<module>"
        self.cls = None
        self.qual = m.name + ".<module>"
        self.node = None


def _dot(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return _dot(n.value) + "." + n.attr
    if isinstance(n, ast.Call):
        return _dot(n.func)
    return "?"


def _isstr(x):
    return (x.op == "py" and isinstance(x.args[0], str)) or (x.op == "app" and x.args[0] == "str")
