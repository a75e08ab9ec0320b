"""Transfer functions for library calls (numpy, scipy, builtins, multiprocessing).

Every entry states what the library function computes (as a term), whether its
result is a fresh array, a view or the same object, and which arguments it
mutates.  Anything not listed is an uninterpreted fresh value that mutates
nothing.
"""
import ast
from . import terms as t
from . import arr
from .terms import mk, app, num, py, sym, ZERO, ONE, NONE, TRUE, FALSE, NAN, ite, and_, or_, not_, havoc
from .arr import rank, nrows, idx, sumrows, slc, FULL

EXT = {}
METHODS = {}

POOLS = {
    "multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool", "multiprocessing.dummy.Pool",
    "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor", "pathos.multiprocessing.Pool",
    "concurrent.futures.process.ProcessPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor", "multiprocessing.Manager",
}
IMPURE = {
    "time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "os.urandom", "os.getpid", "uuid.uuid4",
    "datetime.datetime.now", "secrets.token_bytes", "secrets.randbits", "builtin.id", "builtin.hash", "datetime.datetime.utcnow",
    "threading.get_ident", "time.perf_counter_ns", "time.monotonic_ns", "time.localtime", "datetime.datetime.today",
}
GLOBAL_MUT = {
    "numpy.random.seed": "numpy global random state", "numpy.seterr": "numpy error state", "numpy.seterrcall": "numpy error state",
    "numpy.random.set_state": "numpy global random state", "numpy.random.shuffle": "numpy global random state",
    "random.seed": "random module state", "warnings.filterwarnings": "warning filters", "warnings.simplefilter": "warning filters",
    "logging.basicConfig": "root logging configuration", "logging.disable": "logging state", "os.chdir": "working directory",
    "os.putenv": "environment", "os.unsetenv": "environment", "os.environ.update": "environment", "os.environ.setdefault": "environment", "os.environ.pop": "environment",
    "sys.setrecursionlimit": "recursion limit", "multiprocessing.set_start_method": "start method",
    "numpy.set_printoptions": "numpy print options", "sys.setswitchinterval": "switch interval", "warnings.resetwarnings": "warning filters",
    "signal.signal": "signal handlers", "locale.setlocale": "locale", "gc.disable": "gc", "gc.enable": "gc", "numpy.setbufsize": "numpy buffer size",
    "logging.captureWarnings": "logging state", "os.umask": "umask", "os.nice": "priority", "socket.setdefaulttimeout": "socket default", "sys.settrace": "trace",
    "builtin.breakpoint": "debugger", "matplotlib.use": "matplotlib backend", "matplotlib.rcParams.update": "matplotlib rc", "pylab.rcParams.update": "matplotlib rc",
    "pylab.switch_backend": "matplotlib backend", "pylab.style.use": "matplotlib rc", "faulthandler.enable": "faulthandler", "atexit.register": "atexit", "resource.setrlimit": "rlimit",
    "decimal.setcontext": "decimal context", "decimal.getcontext": None, "sys.setprofile": "profile", "threading.settrace": "trace", "pylab.ion": "interactive mode", "pylab.ioff": "interactive mode",
    "pylab.rc": "matplotlib rc", "pylab.rcdefaults": "matplotlib rc", "matplotlib.rc": "matplotlib rc", "sys.path.append": "module search path", "sys.path.insert": "module search path", "random.setstate": "random module state",
    "numba.set_num_threads": "numba threads", "os.environ.clear": "environment", "logging.addLevelName": "logging state", "logging.setLoggerClass": "logging state", "logging.getLogger.setLevel": "logging state",
}
FILE_EFFECTS = {"builtin.open", "numpy.save", "numpy.savetxt", "numpy.savez", "numpy.savez_compressed", "os.remove", "os.mkdir", "os.makedirs", "os.unlink", "os.rmdir", "shutil.rmtree", "os.rename", "os.replace",
                "subprocess.run", "subprocess.Popen", "os.system", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "pickle.dump", "json.dump", "shutil.copy", "shutil.move", "pathlib.Path.write_text", "tempfile.mkdtemp", "tempfile.mkstemp", "os.kill", "sys.exit", "os._exit", "os.abort", "builtin.exit", "builtin.quit", "pylab.savefig", "matplotlib.pyplot.savefig"}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def canon(name):
    if name.startswith("np."):
        name = "numpy." + name[3:]
    if name.startswith("matplotlib.pyplot"):
        name = "pylab" + name[len("matplotlib.pyplot"):]
    if name.startswith("numpy.core.") or name.startswith("numpy.lib."):
        name = "numpy." + name.split(".")[-1]
    return name


def ext_const(name):
    name = canon(name)
    if name in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan"):
        return NAN
    if name in ("numpy.inf", "math.inf", "numpy.Inf"):
        return app("inf")
    if name in ("numpy.pi", "math.pi"):
        return app("pi")
    if name == "numpy.newaxis":
        return NONE
    if name in ("builtin.int", "builtin.float", "builtin.bool", "builtin.str", "builtin.complex"):
        return py(name)
    if name in ("numpy.float_", "numpy.double"):
        return py("numpy.float64")
    return py(name)


# -------------------------------------------------------------------- helpers
def A(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


def isnone(I, st, v):
    return v is None or (hasattr(v, "t") and v.t is NONE)


def R(I, st, v):
    return I.read(st, v)


def rk(I, st, v):
    from . import interp as ip
    if isinstance(v, ip.V):
        return rank(v.t)
    if isinstance(v, ip.Ref):
        return v.rk
    if isinstance(v, ip.VIte):
        return I.vrank(st, v)
    if isinstance(v, (ip.Tup, ip.LRef)):
        x = arrlike(I, st, v)
        return x[1]
    return rank(R(I, st, v))


def arrlike(I, st, v):
    """(content, rank, nrows) of v converted to an array."""
    from . import interp as ip
    if isinstance(v, ip.Ref):
        return R(I, st, v), v.rk, I.length(st, v) if v.rk != 0 else None
    if isinstance(v, ip.VIte):
        a, b = arrlike(I, st, v.a), arrlike(I, st, v.b)
        n = None
        if a[2] is not None and b[2] is not None:
            n = ite(v.c, a[2], b[2])
        r = a[1] if b[1] is None else (b[1] if a[1] is None else max(a[1], b[1]))
        return ite(v.c, a[0], b[0]), r, n
    if isinstance(v, (ip.LazyIter,)):
        v = materialise(I, st, v, None)
    if isinstance(v, ip.RangeV):
        n = I.sym_iter(st, v, None)[0]
        return app("arange", v.lo, v.hi) if v.st is ONE else app("arange", v.lo, v.hi, v.st), 1, n
    items = I.concrete_items(st, v) if isinstance(v, (ip.Tup, ip.LRef)) else None
    if items is not None:
        parts = []
        r = 0 if items else None
        for x in items:
            c, xr, _ = arrlike(I, st, x)
            parts.append(("row", c))
            r = None if (xr is None or r is None) else max(r, xr)
        c = t.stack(*parts)
        if not items:
            return c, 1, ZERO
        return c, (None if r is None else r + 1), num(len(items))
    x = R(I, st, v)
    if isinstance(v, ip.LRef):
        r = rank(x)
        if x.op == "stack" and not x.args:
            r = 1
        return x, r, nrows(x)
    if isinstance(v, ip.Mapped):
        return x, rank(x), v.n
    return x, rank(x), None


def fresh(I, st, content, r=-1, dtype=None, n=None, node=None):
    return I.wrap(st, content, r, dtype=dtype, n=n, node=node)


def dt(I, st, v):
    if v is None:
        return None
    x = R(I, st, v)
    if x is not NONE and x.op != "py":
        I.dtypes.add(x)
    return None if x is NONE else x


def copyof(I, st, v, node=None, dtype=None):
    c, r, n = arrlike(I, st, v)
    d = dtype
    from . import interp as ip
    if dtype is None and isinstance(v, ip.Ref):
        cell = st.heap.get(v.cid)
        d = cell.dtype if cell else None
    if dtype is not None:
        c2 = I.cast(dtype, c)
        if c2 is not c and r is not None:
            arr.RANK.setdefault(c2, r)
        c = c2
    if r == 0 and not isinstance(v, ip.Ref):
        return ip.V(c)
    return I.newarr(st, c, r, dtype=d, n=n if (c.op in ("num", "stack") or n is None or n.op != "app") else n, node=node)


def materialise(I, st, v, node):
    """Turn any iterable into a list (running lazy producers in the caller)."""
    from . import interp as ip
    if isinstance(v, ip.LRef):
        return v
    items = I.concrete_items(st, v)
    if items is not None and len(items) <= 24:
        xs = [x(st) if callable(x) else x for x in items]
        return ip.LRef(I.new(st, kind="list", items=tuple(xs)))
    if isinstance(v, (ip.Ref, ip.V)):
        x = R(I, st, v)
        return ip.LRef(I.new(st, kind="list", content=x, items=None, members=frozenset(I.roots(st, v))))
    if isinstance(v, ip.Mapped):
        if isinstance(v.tmpl, ip.Tup):
            return v
        return ip.LRef(I.new(st, kind="list", content=R(I, st, v), items=None))
    cid = I.new(st, kind="list", items=())
    ref = ip.LRef(cid)

    def body(x, val):
        I.list_append(x, ref, val, node, quiet=True)
        return ip.Outcome(x)

    class N:
        lineno = "m%s" % getattr(node, "lineno", 0)
        col_offset = getattr(node, "col_offset", 0)
    o = I.for_loop(N, st, v, body)
    if o.normal is not None:
        st.set(o.normal)
    return ref


def list_extend(I, st, ref, val, node):
    from . import interp as ip
    items = I.concrete_items(st, val)
    if items is not None:
        for x in items:
            I.list_append(st, ref, x(st) if callable(x) else x, node)
        return
    m = materialise(I, st, val, node)
    c = I.list_to_abs(st, ref.cid)
    I.event(st, "write", c.origin or "local", frozenset([ref.cid]), node)
    x = R(I, st, m)
    base = c.content.args if c.content.op == "stack" else (("mat", c.content),)
    st.heap[ref.cid] = c.upd(content=t.stack(*(base + (("mat", x),))), members=c.members | frozenset(I.roots(st, m)))


def align(x, y):
    return x, y


def concat1(xs):
    out = []
    for x in xs:
        if x.op == "app" and x.args[0] == "concat1":
            out += list(x.args[1:])
        elif x.op == "stack" and not x.args:
            continue
        elif x.op == "stack" and all(k == "row" and rank(y) == 0 for k, y in x.args):
            out += [y for _, y in x.args]
        else:
            out.append(x)
    r = app("concat1", *out)
    arr.RANK[r] = 1
    return r


# ----------------------------------------------------------------- unknown ext
PURE_NOLOG = ("builtin.", "math.", "numpy.", "scipy.")


def opaque(I, st, name, args, kw, node):
    from . import interp as ip
    ts = [_argterm(I, st, a) for a in args]
    ks = [mk("tuple", py(k), _argterm(I, st, v)) for k, v in sorted(kw.items()) if k != "**"]
    x = app(name, *(ts + ks))
    I.event(st, "call", name, tuple(ts + ks), node)
    r = rank(x)
    if r == 0:
        return ip.V(x)
    rr = None
    if name == "call" and len(args) >= 2:
        # evaluation of an interpolator / fitted object on given points
        rr = rk(I, st, args[1])
        if len(args) >= 3:
            rr = 2
        if rr is not None:
            arr.RANK.setdefault(x, rr)
    return I.newarr(st, x, rr if rr is not None else r, node=node)


def _argterm(I, st, a):
    try:
        return R(I, st, a)
    except Exception:
        return havoc("arg")


def pure(name, r=None, fixed=None):
    """Uninterpreted pure function with a known result rank (callable or int)."""
    def f(I, st, args, kw, node):
        from . import interp as ip
        ts = [arrlike(I, st, a)[0] if isinstance(a, (ip.Tup, ip.LRef, ip.Ref, ip.VIte)) else R(I, st, a) for a in args]
        ks = [mk("tuple", py(k), R(I, st, v)) for k, v in sorted(kw.items()) if k not in ("out", "**")]
        x = app(name, *(ts + ks))
        rr = rank(x)
        if r == "same":
            rr = rk(I, st, args[0]) if args else None
        elif isinstance(r, int):
            rr = r
        if rr is not None:
            arr.RANK.setdefault(x, rr)
        if rr == 0:
            return ip.V(x)
        return I.newarr(st, x, rr, node=node)
    return f


# --------------------------------------------------------------- element-wise
def ufunc(fn):
    def f(I, st, args, kw, node):
        from . import interp as ip
        vals = [arrlike(I, st, a) if isinstance(a, (ip.Tup, ip.LRef)) else (R(I, st, a), rk(I, st, a), None) for a in args[: fn.__code__.co_argcount]]
        x = fn(*[v[0] for v in vals])
        rs = [v[1] for v in vals]
        known = [r for r in rs if r is not None]
        r = max(known) if known and (None not in rs or max(known) >= 1) else None
        w = kw.get("where")
        if w is not None and R(I, st, w) is not TRUE:
            x = app("np.where3", R(I, st, w), x, R(I, st, kw["out"]) if "out" in kw else havoc("where"))
        if r is not None and r >= 1:
            arr.RANK.setdefault(x, r) if x.op not in ("num", "bool", "py") else None
        out = kw.get("out")
        if out is None and len(args) > fn.__code__.co_argcount:
            out = args[fn.__code__.co_argcount]
        if isinstance(out, ip.Tup) and len(out.items) == 1:
            out = out.items[0]
        if out is not None and not isnone(I, st, out):
            I.write(st, out, None, x, node)
            return out
        d = dt(I, st, kw.get("dtype"))
        if d is not None:
            x = I.cast(d, x)
        if r == 0:
            return ip.V(x)
        ref = I.newarr(st, x, r, node=node)
        if x.op == "num":
            for a in args:
                if isinstance(a, ip.Ref):
                    st.heap[ref.cid] = st.heap[ref.cid].upd(nrows=I.length(st, a))
                    break
        return ref
    return f


def _sqrt(x):
    if t.isnum(x) and x.args[0] >= 0:
        import math
        fr = x.args[0]
        a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if a * a == fr.numerator and b * b == fr.denominator:
            from fractions import Fraction
            return num(Fraction(a, b))
    return app("np.sqrt", x)


def _abs(x):
    if t.isnum(x):
        return num(abs(x.args[0]))
    c, p = t.primitive(x)
    if x.op == "app" and x.args[0] == "np.abs":
        return x
    if c < 0 or abs(c) != 1:
        return t.scale(app("np.abs", p), abs(c))
    return app("np.abs", p)


def _log(x):
    if x.op == "app" and x.args[0] == "np.exp":
        return x.args[1]
    if x is ONE:
        return ZERO
    return app("np.log", x)


def _exp(x):
    return ONE if x is ZERO else app("np.exp", x)


UF = {
    "add": lambda a, b: t.add(a, b), "subtract": lambda a, b: t.sub(a, b), "multiply": lambda a, b: t.mul(a, b),
    "divide": lambda a, b: t.div(a, b), "true_divide": lambda a, b: t.div(a, b), "negative": lambda a: t.neg(a),
    "square": lambda a: t.mul(a, a), "power": lambda a, b: t.power(a, b), "abs": _abs, "absolute": _abs, "fabs": _abs,
    "sqrt": _sqrt, "exp": _exp, "log": _log, "sign": lambda a: app("np.sign", a), "floor": lambda a: app("np.floor", a), "ceil": lambda a: app("np.ceil", a),
    "rint": lambda a: app("np.round", a), "isnan": lambda a: app("np.isnan", a), "isfinite": lambda a: app("np.isfinite", a), "isinf": lambda a: app("np.isinf", a),
    "logical_and": lambda a, b: and_(a, b), "logical_or": lambda a, b: or_(a, b), "logical_not": lambda a: not_(a), "bitwise_and": lambda a, b: and_(a, b),
    "bitwise_or": lambda a, b: or_(a, b), "invert": lambda a: not_(a), "logical_xor": lambda a, b: app("xor", a, b),
    "less": lambda a, b: t.lt(a, b), "less_equal": lambda a, b: t.le(a, b), "greater": lambda a, b: t.lt(b, a), "greater_equal": lambda a, b: t.le(b, a),
    "equal": lambda a, b: t.eq(a, b), "not_equal": lambda a, b: not_(t.eq(a, b)),
    "maximum": lambda a, b: _mm("np.maximum", a, b), "minimum": lambda a, b: _mm("np.minimum", a, b), "sin": lambda a: app("np.sin", a), "cos": lambda a: app("np.cos", a),
    "conj": lambda a: app("np.conj", a), "angle": lambda a: app("np.angle", a), "mod": lambda a, b: app("mod", a, b), "floor_divide": lambda a, b: app("floordiv", a, b),
    "reciprocal": lambda a: t.inv(a), "positive": lambda a: a, "real": lambda a: app("real", a), "imag": lambda a: app("imag", a), "float_power": lambda a, b: t.power(a, b),
    "remainder": lambda a, b: app("mod", a, b), "hypot": lambda a, b: app("np.sqrt", t.add(t.mul(a, a), t.mul(b, b))), "arctan2": lambda a, b: app("np.arctan2", a, b),
    "log2": lambda a: app("np.log2", a), "log10": lambda a: app("np.log10", a), "log1p": lambda a: app("np.log", t.add(a, ONE)), "trunc": lambda a: app("np.trunc", a), "nan_to_num": lambda a: app("np.nan_to_num", a),
    "signbit": lambda a: app("np.signbit", a), "fmax": lambda a, b: _mm("np.maximum", a, b), "fmin": lambda a, b: _mm("np.minimum", a, b),
}


def _mm(f, a, b):
    if t.isnum(a) and t.isnum(b):
        v = (max if f.endswith("maximum") else min)(a.args[0], b.args[0])
        return num(v)
    if a is b:
        return a
    return app(f, *sorted((a, b), key=lambda z: z.id))


for _n, _f in UF.items():
    EXT["numpy." + _n] = ufunc(_f)
for _n in ("sqrt", "exp", "log", "floor", "ceil", "fabs", "sin", "cos", "isnan", "isfinite", "log10", "log2", "trunc", "log1p", "hypot"):
    EXT["math." + _n] = EXT["numpy." + _n]
EXT["math.pow"] = EXT["numpy.power"]
EXT["builtin.pow"] = EXT["numpy.power"]
EXT["builtin.abs"] = EXT["numpy.abs"]


@ext("numpy.round", "numpy.around", "numpy.round_", "builtin.round")
def _round(I, st, args, kw, node):
    dec = A(args, kw, 1, "decimals")
    d = R(I, st, dec) if dec is not None else ZERO
    if d is NONE:
        d = ZERO
    v = arrlike(I, st, args[0])
    x = app("np.round", v[0]) if d is ZERO else app("np.round", v[0], d)
    out = A(args, kw, 2, "out")
    if out is not None:
        I.write(st, out, None, x, node)
        return out
    return fresh(I, st, x, v[1], n=v[2], node=node)


@ext("numpy.clip")
def _clip(I, st, args, kw, node):
    v = arrlike(I, st, args[0])
    lo, hi = A(args, kw, 1, "a_min"), A(args, kw, 2, "a_max")
    x = v[0]
    if not isnone(I, st, lo):
        x = _mm("np.maximum", x, R(I, st, lo))
    if not isnone(I, st, hi):
        x = _mm("np.minimum", x, R(I, st, hi))
    out = kw.get("out")
    if out is not None:
        I.write(st, out, None, x, node)
        return out
    return fresh(I, st, x, v[1], node=node)


# ------------------------------------------------------------------- creation
def _shape(I, st, v):
    """list of dimension terms, or None."""
    from . import interp as ip
    if isinstance(v, (ip.Tup, ip.LRef)):
        items = I.concrete_items(st, v)
        if items is not None:
            return [R(I, st, x) for x in items]
        return None
    x = R(I, st, v)
    if x.op == "tuple":
        return list(x.args)
    if x.op == "app" and x.args[0] == "tupcat":
        a = list(x.args[1].args) if x.args[1].op == "tuple" else None
        if a is None:
            return None
        b = x.args[2]
        if b.op == "tuple":
            return a + list(b.args)
        return a + [("rest", b)]
    if x.op == "app" and x.args[0] == "shape":
        return [("rest", x)]
    if rank(x) == 0 or x.op in ("poly", "sym", "phi", "num"):
        return [x]
    return None


def _shape_rank(sh):
    if sh is None:
        return None
    r = 0
    for d in sh:
        if isinstance(d, tuple):
            src = d[1]
            if src.op == "app" and src.args[0] == "shape":
                rr = rank(src.args[1])
                if rr is None:
                    return None
                r += rr
            else:
                return None
        else:
            r += 1
    return r


def filled(I, st, sh, value, dtype, node, unknown=False):
    r = _shape_rank(sh)
    if sh is None:
        x = value if not unknown else havoc("empty")
        return I.newarr(st, x, None, dtype=dtype, node=node)
    d0 = sh[0] if sh else None
    n = None
    if isinstance(d0, tuple):
        src = d0[1]
        if src.op == "app" and src.args[0] == "shape":
            n = nrows(src.args[1])
    else:
        n = d0
    if r is not None and r >= 2 and n is not None and t.isnum(n):
        k = int(n.args[0])
        if k == 0:
            return I.newarr(st, t.stack(), r, dtype=dtype, n=None, node=node)
        if k <= 6 and not unknown:
            return I.newarr(st, t.stack(*[("row", value)] * k), r, dtype=dtype, node=node)
    if r == 1 and n is ZERO:
        x = t.stack()
        return I.newarr(st, x, 1, dtype=dtype, n=ZERO, node=node)
    if unknown:
        x = havoc("empty")
        arr.SHAPES.setdefault(x, set()).add(tuple(sh))
        if r is not None:
            arr.RANK[x] = r
        if n is not None:
            arr.NROWS[x] = n
        return I.newarr(st, x, r, dtype=dtype, n=n, node=node)
    if r is not None and r >= 2 and n is not None:
        # matrix of constant rows
        x = mk("comp", n, value)
        arr.SHAPES.setdefault(x, set()).add(tuple(sh))
        return I.newarr(st, x, r, dtype=dtype, node=node)
    return I.newarr(st, value, r, dtype=dtype, n=n, node=node)


@ext("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.ndarray")
def _zeros(I, st, args, kw, node, name="numpy.zeros"):
    sh = _shape(I, st, A(args, kw, 0, "shape"))
    d = dt(I, st, A(args, kw, 1, "dtype"))
    return filled(I, st, sh, ONE if name.endswith("ones") else ZERO, d, node, unknown=name.endswith(("empty", "ndarray")))


@ext("numpy.full")
def _full(I, st, args, kw, node):
    sh = _shape(I, st, A(args, kw, 0, "shape"))
    d = dt(I, st, A(args, kw, 2, "dtype"))
    return filled(I, st, sh, R(I, st, A(args, kw, 1, "fill_value")), d, node)


@ext("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like")
def _like(I, st, args, kw, node, name="numpy.zeros_like"):
    from . import interp as ip
    c, r, n = arrlike(I, st, args[0])
    if name.endswith("full_like"):
        v = R(I, st, A(args, kw, 1, "fill_value"))
    else:
        v = ONE if name.endswith("ones_like") else ZERO
    d = dt(I, st, kw.get("dtype"))
    if name.endswith("empty_like"):
        v = havoc("empty")
        if r is not None:
            arr.RANK[v] = r
    elif r is not None and r >= 2 and n is not None:
        v = mk("comp", n, v)
    return I.newarr(st, v, r, dtype=d, n=n, node=node)


@ext("numpy.arange")
def _arange(I, st, args, kw, node):
    xs = [R(I, st, a) for a in args if not isnone(I, st, a)]
    if len(args) > 3:
        xs = xs[:3]
    d = dt(I, st, A(args, kw, 3, "dtype"))
    if "start" in kw:
        xs.insert(0, R(I, st, kw["start"]))
    if "stop" in kw:
        xs.append(R(I, st, kw["stop"]))
    if "step" in kw:
        if len(xs) == 1:
            xs.insert(0, ZERO)
        xs.append(R(I, st, kw["step"]))
    if len(xs) == 1:
        xs = [ZERO] + xs
    if len(xs) == 3 and xs[2] is ONE:
        xs = xs[:2]
    x = app("arange", *xs)
    n = t.sub(xs[1], xs[0]) if len(xs) == 2 else None
    if n is not None:
        arr.NROWS[x] = n
    arr.RANK[x] = 1
    if d is not None:
        y = app("arange.dtype", x, d) if not (d.op == "py" and d.args[0] in ("numpy.int64", "numpy.float64", "builtin.int", "builtin.float", "numpy.intp")) else x
        # element values are those of the integer range as long as the dtype holds them exactly
        I.event(st, "call", "numpy.arange", (xs[0], xs[-1] if len(xs) == 2 else xs[1], d), node)
    return I.newarr(st, x, 1, dtype=d, n=n, node=node)


@ext("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.require", "numpy.asfarray", "numpy.asfortranarray", "numpy.atleast_1d", "numpy.asarray_chkfinite")
def _array(I, st, args, kw, node, name="numpy.array"):
    from . import interp as ip
    v = A(args, kw, 0, "object")
    if v is None:
        v = kw.get("a")
    d = dt(I, st, A(args, kw, 1, "dtype"))
    cp = kw.get("copy")
    copy = name.endswith(("numpy.array", "numpy.copy"))
    if cp is not None:
        cx = R(I, st, cp)
        if cx is FALSE or cx is NONE:
            copy = False
        elif cx is TRUE:
            copy = True
    if isinstance(v, (ip.Ref, ip.VIte)) and not copy:
        if d is not None:
            c = I.cast(d, R(I, st, v))
            r = rk(I, st, v)
            return I.newarr(st, c, r, dtype=d, aliases=frozenset(I.roots(st, v)), node=node) if not isinstance(v, ip.VIte) else v
        return v
    return copyof(I, st, v, node, d)


@ext("numpy.linspace", "numpy.logspace", "numpy.geomspace")
def _linspace(I, st, args, kw, node):
    r = pure("np.linspace", 1)(I, st, args, {k: v for k, v in kw.items() if k != "dtype"}, node)
    return r


@ext("copy.copy", "copy.deepcopy")
def _copy(I, st, args, kw, node):
    from . import interp as ip
    return deepcopy(I, st, args[0], node)


def deepcopy(I, st, v, node):
    from . import interp as ip
    if isinstance(v, (ip.Ref, ip.VIte)):
        return copyof(I, st, v, node)
    if isinstance(v, ip.Tup):
        return ip.Tup([deepcopy(I, st, x, node) for x in v.items])
    if isinstance(v, (ip.LRef, ip.DRef)):
        c = st.heap[v.cid]
        cid = I.new(st, kind=c.kind, content=c.content, items=c.items, members=frozenset(), cls=c.cls)
        return type(v)(cid)
    if isinstance(v, ip.ORef):
        c = st.heap[v.cid]
        cid = I.new(st, kind=c.kind, content=c.content, attrs=dict(c.attrs) if c.attrs is not None else None, cls=c.cls, origin="new:copy")
        return ip.ORef(cid)
    return v


# ---------------------------------------------------------------- combination
def rows_of(I, st, v):
    """stack parts for vstack-like functions."""
    c, r, n = arrlike(I, st, v)
    if r == 1 or r == 0:
        return [("row", c)]
    if r is None:
        x = app("asrows", c)
        return [("mat", x)]
    if c.op == "stack":
        return list(c.args)
    return [("mat", c)]


def _seq(I, st, v):
    from . import interp as ip
    if isinstance(v, (ip.Tup, ip.LRef)):
        return I.concrete_items(st, v)
    if isinstance(v, ip.LazyIter):
        m = materialise(I, st, v, None)
        return I.concrete_items(st, m)
    return None


@ext("numpy.vstack", "numpy.row_stack")
def _vstack(I, st, args, kw, node):
    items = _seq(I, st, args[0])
    if items is None:
        c, r, n = arrlike(I, st, args[0])
        if r == 2:
            return I.newarr(st, c, 2, node=node)
        x = app("np.vstack", c)
        arr.RANK[x] = 2
        return I.newarr(st, x, 2, node=node)
    parts = []
    r = 2
    for v in items:
        parts += rows_of(I, st, v)
        k = rk(I, st, v)
        if k is not None:
            r = max(r, k)
    x = t.stack(*parts)
    if len(parts) == 1 and parts[0][0] == "mat":
        x = parts[0][1]
    arr.RANK.setdefault(x, r)
    return I.newarr(st, x, r, node=node)


@ext("numpy.concatenate", "numpy.concat")
def _concat(I, st, args, kw, node):
    ax = A(args, kw, 1, "axis")
    axt = R(I, st, ax) if ax is not None else ZERO
    items = _seq(I, st, args[0])
    if items is None:
        c, r, n = arrlike(I, st, args[0])
        x = app("np.concatenate", c, axt)
        if r is not None:
            arr.RANK.setdefault(x, r - 1)
        return I.newarr(st, x, None if r is None else r - 1, node=node)
    al = [arrlike(I, st, v) for v in items]
    rs = [a[1] for a in al]
    if axt is NONE:
        return I.newarr(st, concat1([a[0] for a in al]), 1, node=node)
    if axt is ZERO or (all(r == 1 for r in rs) and t.isnum(axt) and axt.args[0] == -1):
        if all(r == 1 or r is None for r in rs) and any(r == 1 for r in rs):
            return I.newarr(st, concat1([a[0] for a in al]), 1, node=node)
        parts = []
        for v, a in zip(items, al):
            if a[1] is None or a[1] >= 2:
                parts += list(a[0].args) if a[0].op == "stack" else [("mat", a[0])]
            else:
                parts += [("row", a[0])]
        r = max([x for x in rs if x is not None] or [2])
        x = t.stack(*parts)
        if len(parts) == 1 and parts[0][0] == "mat":
            x = parts[0][1]
        return I.newarr(st, x, r, node=node)
    x = app("hcat", *[a[0] for a in al])
    r = max([y for y in rs if y is not None] or [2])
    arr.RANK[x] = r
    return I.newarr(st, x, r, node=node)


@ext("numpy.hstack", "numpy.column_stack")
def _hstack(I, st, args, kw, node):
    items = _seq(I, st, args[0])
    if items is None:
        return pure("np.hstack")(I, st, args, kw, node)
    al = [arrlike(I, st, v) for v in items]
    if all(a[1] in (0, 1) for a in al):
        return I.newarr(st, concat1([a[0] for a in al]), 1, node=node)
    x = app("hcat", *[a[0] for a in al])
    r = max([y[1] for y in al if y[1] is not None] or [2])
    arr.RANK[x] = r
    return I.newarr(st, x, r, node=node)


@ext("numpy.stack")
def _stack(I, st, args, kw, node):
    ax = A(args, kw, 1, "axis")
    axt = R(I, st, ax) if ax is not None else ZERO
    items = _seq(I, st, args[0])
    if axt is ZERO:
        if items is not None:
            al = [arrlike(I, st, v) for v in items]
            x = t.stack(*[("row", a[0]) for a in al])
            r = max([y[1] for y in al if y[1] is not None] or [1]) + 1
            return I.newarr(st, x, r, node=node)
        c, r, n = arrlike(I, st, args[0])
        return I.newarr(st, c, r, node=node)
    return pure("np.stack")(I, st, args, kw, node)


@ext("numpy.append")
def _append(I, st, args, kw, node):
    ax = A(args, kw, 2, "axis")
    a, b = arrlike(I, st, args[0]), arrlike(I, st, args[1])
    if ax is None or isnone(I, st, ax):
        return I.newarr(st, concat1([a[0], b[0]]), 1, node=node)
    if R(I, st, ax) is ZERO:
        if a[1] == 1:
            return I.newarr(st, concat1([a[0], b[0]]), 1, node=node)
        pa = list(a[0].args) if a[0].op == "stack" else [("mat", a[0])]
        pb = list(b[0].args) if b[0].op == "stack" else [("mat", b[0])]
        return I.newarr(st, t.stack(*(pa + pb)), a[1] or b[1] or 2, node=node)
    return pure("hcat")(I, st, args[:2], {}, node)


@ext("numpy.insert")
def _insert(I, st, args, kw, node):
    return pure("np.insert", "same")(I, st, args, kw, node)


# ----------------------------------------------------------------- reductions
def _axis(I, st, v):
    if v is None:
        return None
    x = R(I, st, v)
    return None if x is NONE else x


def reduce_(I, st, name, v, axis, node, keep=False, ddof=None):
    from . import interp as ip
    c, r, n = arrlike(I, st, v)
    if name in ("sum", "mean") and axis is not None and r is not None and t.isnum(axis) and axis.args[0] == -r:
        axis = ZERO
    ax0 = axis is ZERO and not (r == 1)
    full = axis is None or (r == 1 and (axis is ZERO or (t.isnum(axis) and axis.args[0] == -1)))
    rr = None
    if full:
        rr = 0
        if name == "sum":
            x = total(c, r, n)
        elif name == "mean":
            x = t.div(total(c, r, n), _size(c, r, n))
        elif name == "ptp":
            x = t.sub(app("np.max", c), app("np.min", c))
        elif name == "var":
            s = app("np.std", c) if ddof in (None, ZERO) else app("np.std", c, ddof)
            x = t.mul(s, s)
        elif name == "std":
            x = app("np.std", c) if ddof in (None, ZERO) else app("np.std", c, ddof)
            arr.RANK[x] = 0
        else:
            x = app("np." + name, c)
        arr.RANK.setdefault(x, 0)
    elif ax0:
        rr = None if r is None else r - 1
        if name == "sum":
            x = sumrows(c)
        elif name == "mean":
            x = t.div(sumrows(c), n if n is not None else nrows(c))
        elif name == "ptp":
            x = t.sub(app("np.max0", c), app("np.min0", c))
        elif name == "std":
            x = app("std0", c) if ddof in (None, ZERO) else app("std0", c, ddof)
        elif name == "var":
            s = app("std0", c) if ddof in (None, ZERO) else app("std0", c, ddof)
            if rr is not None:
                arr.RANK.setdefault(s, rr)
            x = t.mul(s, s)
        else:
            x = app("np.%s0" % name, c)
        if rr is not None and x.op not in ("num",):
            arr.RANK.setdefault(x, rr)
    else:
        rr = None if r is None else max(0, r - 1)
        x = app("np.%s.axis" % name, c, axis, ddof or ZERO)
        if rr is not None:
            arr.RANK.setdefault(x, rr)
    if keep:
        if full:
            return I.newarr(st, x, r, node=node)
        if ax0:
            return I.newarr(st, t.stack(("row", x)), r, node=node)
        x = app("keepdims", x)
        rr = r
        if r is not None:
            arr.RANK.setdefault(x, r)
    if rr == 0:
        return ip.V(x)
    ref = I.newarr(st, x, rr, node=node)
    return ref


def _size(c, r, n):
    if r == 1:
        return n if n is not None else nrows(c)
    x = app("size", c)
    arr.RANK[x] = 0
    return x


def total(c, r, n):
    """Sum over all elements of c (linear normal form)."""
    if c.op == "num":
        return t.mul(c, n) if n is not None and r == 1 else (ZERO if c is ZERO else app("np.sum", c))
    p = t.as_poly(c)
    if len(p) == 1:
        (m, k), = p.items()
        sc = [(x, e) for x, e in m if rank(x) == 0]
        ve = [(x, e) for x, e in m if rank(x) != 0]
        if ve and (sc or k != 1):
            y = app("np.sum", t.from_poly({tuple(ve): 1}))
            arr.RANK[y] = 0
            return t.mul(t.from_poly({tuple(sc): k}), y)
    x = app("np.sum", c)
    arr.RANK[x] = 0
    return x


def _red(name):
    def f(I, st, args, kw, node):
        from . import interp as ip
        v = args[0] if args else kw.get("a")
        axis = _axis(I, st, A(args, kw, 1, "axis"))
        keep = "keepdims" in kw and R(I, st, kw["keepdims"]) is TRUE
        dd = R(I, st, kw["ddof"]) if "ddof" in kw else None
        r = reduce_(I, st, name, v, axis, node, keep, dd)
        if kw.get("out") is not None and not isnone(I, st, kw["out"]):
            I.write(st, kw["out"], None, r, node)
            return kw["out"]
        return r
    return f


for _n, _c in (("sum", "sum"), ("mean", "mean"), ("average", "mean"), ("std", "std"), ("var", "var"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"), ("ptp", "ptp"), ("any", "any"),
               ("all", "all"), ("prod", "prod"), ("median", "median"), ("argmax", "argmax"), ("argmin", "argmin"), ("nansum", "nansum"), ("nanmax", "nanmax"), ("nanmin", "nanmin"), ("nanmean", "nanmean"), ("count_nonzero", "count_nonzero"), ("nanstd", "nanstd")):
    EXT["numpy." + _n] = _red(_c)
    if _n not in ("average", "amax", "amin", "median", "nansum", "nanmax", "nanmin", "nanmean", "count_nonzero", "nanstd"):
        def _m(f):
            def g(I, st, o, args, kw, node):
                return f(I, st, [o] + list(args), kw, node)
            return g
        METHODS[_n] = _m(EXT["numpy." + _n])


@ext("numpy.add.reduce")
def _addreduce(I, st, args, kw, node):
    if len(args) < 2 and "axis" not in kw:
        from . import interp as ip
        kw = dict(kw, axis=ip.V(ZERO))
    return EXT["numpy.sum"](I, st, args, kw, node)


@ext("builtin.sum", "math.fsum")
def _bsum(I, st, args, kw, node):
    from . import interp as ip
    v = args[0]
    if isinstance(v, ip.LazyIter) or isinstance(v, ip.RangeV) or isinstance(v, ip.Mapped):
        v = materialise(I, st, v, node)
    items = I.concrete_items(st, v) if isinstance(v, (ip.Tup, ip.LRef)) else None
    start = R(I, st, A(args, kw, 1, "start")) if A(args, kw, 1, "start") is not None else ZERO
    if items is not None:
        acc = args[1] if len(args) > 1 else ip.V(ZERO)
        for x in items:
            acc = I.binop(st, ast.Add(), acc, x, node)
        return acc
    c, r, n = arrlike(I, st, v)
    if r == 1:
        return ip.V(t.add(start, total(c, 1, n)))
    x = t.add(start, sumrows(c))
    return fresh(I, st, x, None if r is None else r - 1, node=node)


@ext("builtin.max", "builtin.min")
def _bmax(I, st, args, kw, node, name="builtin.max"):
    from . import interp as ip
    k = "max" if name.endswith("max") else "min"
    if len(args) == 1:
        v = args[0]
        items = _seq(I, st, v)
        if items is None:
            return ip.V(app("np." + k, arrlike(I, st, v)[0]))
        args = items
    xs = [R(I, st, a) for a in args]
    x = xs[0]
    for y in xs[1:]:
        x = _mm("np.maximum" if k == "max" else "np.minimum", x, y)
    return ip.V(x)


@ext("numpy.allclose", "numpy.isclose", "math.isclose")
def _allclose(I, st, args, kw, node, name="numpy.allclose"):
    from . import interp as ip
    a, b = R(I, st, A(args, kw, 0, "a")), R(I, st, A(args, kw, 1, "b"))
    dr, da = (num("1/100000"), num("1/100000000")) if name.startswith("numpy") else (num("1/1000000000"), ZERO)
    rt = R(I, st, A(args, kw, 2, "rtol")) if A(args, kw, 2, "rtol") is not None else (R(I, st, kw["rel_tol"]) if "rel_tol" in kw else dr)
    at = R(I, st, A(args, kw, 3, "atol")) if A(args, kw, 3, "atol") is not None else (R(I, st, kw["abs_tol"]) if "abs_tol" in kw else da)
    if b is ZERO or a is ZERO:
        x = a if b is ZERO else b
        if b is ZERO:
            rt = ZERO
        p = t.primitive(x)[0]
        x = app("np.allclose", a, b, rt, at)
    else:
        x = app("np.allclose", a, b, rt, at)
    if name.endswith("isclose"):
        x = app("np.isclose", a, b, rt, at)
        r = max(rk(I, st, args[0]) or 0, rk(I, st, args[1]) or 0)
        arr.RANK[x] = r
        return fresh(I, st, x, r, node=node)
    return ip.V(x)


@ext("numpy.diff")
def _diff(I, st, args, kw, node):
    c, r, n = arrlike(I, st, args[0])
    nn = A(args, kw, 1, "n")
    ax = _axis(I, st, A(args, kw, 2, "axis"))
    for k in ("prepend", "append"):
        if k in kw and not isnone(I, st, kw[k]):
            b = arrlike(I, st, kw[k])[0]
            c = concat1([b, c] if k == "prepend" else [c, b])
    if nn is not None and R(I, st, nn) is not ONE:
        return pure("np.diff", "same")(I, st, args, kw, node)
    if r == 1 or ax is ZERO:
        x = t.sub(idx(c, slc(ONE)), idx(c, slc(NONE, num(-1))))
        rr = r if r is not None else 1
        if x.op != "num":
            arr.RANK.setdefault(x, rr)
        return I.newarr(st, x, rr, n=None, node=node)
    x = app("np.diff", c)
    if r is not None:
        arr.RANK.setdefault(x, r)
    return I.newarr(st, x, r, node=node)


@ext("numpy.nonzero", "numpy.where", "numpy.flatnonzero", "numpy.argwhere")
def _nonzero(I, st, args, kw, node, name="numpy.nonzero"):
    from . import interp as ip
    if name.endswith("numpy.where") and len(args) == 3:
        c, a, b = [arrlike(I, st, x) if isinstance(x, (ip.Tup, ip.LRef)) else (R(I, st, x), rk(I, st, x), None) for x in args]
        if c[1] == 0:
            x = ite(c[0], a[0], b[0])
        else:
            x = app("np.where3", c[0], a[0], b[0])
        rs = [z[1] for z in (c, a, b) if z[1] is not None]
        r = max(rs) if rs else None
        if r is not None and x.op != "num":
            arr.RANK.setdefault(x, r)
        return fresh(I, st, x, r, node=node)
    c, r, n = arrlike(I, st, args[0])
    if name.endswith("flatnonzero") or r == 1 or r is None:
        x = app("nonzero1", c)
        arr.RANK[x] = 1
        ref = I.newarr(st, x, 1, node=node)
        return ref if name.endswith("flatnonzero") else ip.Tup([ref])
    out = []
    for k in range(r):
        x = app("nonzero", c, num(k))
        arr.RANK[x] = 1
        out.append(I.newarr(st, x, 1, node=node))
    return ip.Tup(out)


@ext("numpy.sort", "builtin.sorted")
def _sort(I, st, args, kw, node):
    from . import interp as ip
    c, r, n = arrlike(I, st, args[0])
    x = app("np.sort", c)
    if r is not None:
        arr.RANK.setdefault(x, r)
    if isinstance(args[0], (ip.LRef,)):
        return ip.LRef(I.new(st, kind="list", content=x, items=None))
    return I.newarr(st, x, r, node=node)


@ext("numpy.delete")
def _delete(I, st, args, kw, node):
    c, r, n = arrlike(I, st, args[0])
    ax = _axis(I, st, A(args, kw, 2, "axis"))
    o = A(args, kw, 1, "obj")
    ot = R(I, st, o)
    if ax is ZERO and t.isnum(ot) and ot.args[0] == -1:
        x = idx(c, slc(NONE, num(-1)))
    elif ax is ZERO and ot is ZERO:
        x = idx(c, slc(ONE))
    else:
        x = app("np.delete", c, ot, ax if ax is not None else NONE)
    if r is not None:
        arr.RANK.setdefault(x, r)
    return I.newarr(st, x, r, node=node)


# -------------------------------------------------------------- views/reshapes
def view(I, st, v, content, r, node):
    return I.newarr(st, content, r, aliases=frozenset(I.roots(st, v)), node=node)


@ext("numpy.reshape")
def _reshape(I, st, args, kw, node):
    from . import interp as ip
    v = args[0]
    c, r, n = arrlike(I, st, v)
    if len(args) > 2:
        sh = [R(I, st, a) for a in args[1:]]
    else:
        sh = _shape(I, st, A(args, kw, 1, "newshape") or kw.get("shape"))
    if sh and len(sh) == 2 and r == 1 and all(not isinstance(d, tuple) for d in sh):
        nn = n if n is not None else nrows(c)
        if sh[0] is ONE or (t.isnum(sh[0]) and sh[0].args[0] == -1 and (sh[1] is nn or sh[1] is app("size", c))):
            return view(I, st, v, t.stack(("row", c)), 2, node)
    if sh and len(sh) == 1 and r == 1:
        return v
    if sh and len(sh) == 3 and r == 2 and sh[0] is ONE:
        return view(I, st, v, t.stack(("row", c)), 3, node)
    rr = _shape_rank(sh)
    x = app("reshape", c, *(d if not isinstance(d, tuple) else d[1] for d in (sh or [])))
    if rr is not None:
        arr.RANK.setdefault(x, rr)
    return view(I, st, v, x, rr, node)


@meth("reshape")
def _mreshape(I, st, o, args, kw, node):
    return _reshape(I, st, [o] + list(args), kw, node)


@ext("numpy.ravel", "numpy.squeeze", "numpy.transpose", "numpy.fliplr", "numpy.flipud", "numpy.flip", "numpy.rot90", "numpy.swapaxes", "numpy.moveaxis", "numpy.atleast_2d", "numpy.expand_dims", "numpy.broadcast_to", "numpy.rollaxis", "numpy.atleast_3d", "numpy.diagonal")
def _viewlike(I, st, args, kw, node, name="numpy.ravel"):
    v = args[0]
    c, r, n = arrlike(I, st, v)
    nm = name.split(".")[-1]
    if nm == "ravel" and r == 1:
        return v
    if nm == "flip" and r == 1:
        x = idx(c, slc(NONE, NONE, num(-1)))
        return view(I, st, v, x, 1, node)
    if nm in ("atleast_2d", "expand_dims") and r == 1 and (nm == "atleast_2d" or R(I, st, A(args, kw, 1, "axis")) is ZERO):
        return view(I, st, v, t.stack(("row", c)), 2, node)
    if nm == "expand_dims" and r == 2 and R(I, st, A(args, kw, 1, "axis")) is ZERO:
        return view(I, st, v, t.stack(("row", c)), 3, node)
    if nm == "atleast_2d" and r == 2:
        return v
    if nm == "transpose" and r == 1:
        return v
    rr = r
    if nm == "ravel":
        rr = 1
    if nm in ("squeeze", "broadcast_to", "expand_dims", "diagonal", "atleast_3d"):
        rr = None
    x = app("np." + nm, c, *[R(I, st, a) for a in args[1:]])
    if rr is not None:
        arr.RANK.setdefault(x, rr)
    return view(I, st, v, x, rr, node)


def _vm(name):
    def f(I, st, o, args, kw, node):
        return _viewlike(I, st, [o] + list(args), kw, node, name="numpy." + name)
    return f


for _n in ("ravel", "squeeze", "transpose", "swapaxes"):
    METHODS[_n] = _vm(_n)


@meth("view")
def _view(I, st, o, args, kw, node):
    return o


@meth("flatten")
def _flatten(I, st, o, args, kw, node):
    c, r, n = arrlike(I, st, o)
    if r == 1:
        return copyof(I, st, o, node)
    x = app("np.ravel", c)
    arr.RANK[x] = 1
    return I.newarr(st, x, 1, node=node)


@meth("copy", "__copy__", "__deepcopy__")
def _mcopy(I, st, o, args, kw, node):
    return deepcopy(I, st, o, node)


@meth("astype")
def _astype(I, st, o, args, kw, node):
    from . import interp as ip
    d = dt(I, st, A(args, kw, 0, "dtype"))
    cp = kw.get("copy")
    if cp is not None and R(I, st, cp) is FALSE:
        c, r, n = arrlike(I, st, o)
        x = I.cast(d, c)
        return I.newarr(st, x, r, dtype=d, n=n, aliases=frozenset(I.roots(st, o)), node=node)
    if isinstance(o, ip.V) and rank(o.t) == 0:
        return ip.V(I.cast(d, o.t))
    c, r, n = arrlike(I, st, o)
    if d is not None and d.op == "py" and d.args[0] in ("builtin.int", "numpy.int64", "numpy.intp", "int") and c.op == "idx" and c.args[0].op == "app" and c.args[0].args[0] == "arange":
        return I.newarr(st, c, r, dtype=d, n=n, node=node)
    x = I.cast(d, c)
    if x is not c and r is not None:
        arr.RANK.setdefault(x, r)
    return I.newarr(st, x, r, dtype=d, n=n, node=node)


@meth("tolist")
def _tolist(I, st, o, args, kw, node):
    from . import interp as ip
    return ip.LRef(I.new(st, kind="list", content=R(I, st, o), items=None))


@meth("item")
def _item(I, st, o, args, kw, node):
    from . import interp as ip
    return ip.V(app("item", R(I, st, o), *[R(I, st, a) for a in args]))


@meth("round")
def _mround(I, st, o, args, kw, node):
    return _round(I, st, [o] + list(args), kw, node)


@meth("nonzero")
def _mnonzero(I, st, o, args, kw, node):
    return _nonzero(I, st, [o], kw, node)


@meth("clip")
def _mclip(I, st, o, args, kw, node):
    return _clip(I, st, [o] + list(args), kw, node)


@meth("conj", "conjugate")
def _mconj(I, st, o, args, kw, node):
    return EXT["numpy.conj"](I, st, [o], kw, node)


@meth("fill")
def _fill(I, st, o, args, kw, node):
    from . import interp as ip
    I.write(st, o, None, args[0], node)
    return ip.V(NONE)


@meth("put", "partition", "itemset", "setfield", "byteswap", "setflags", "resize")
def _mput(I, st, o, args, kw, node):
    from . import interp as ip
    I.write(st, o, None, ip.V(havoc("put")), node)
    return ip.V(NONE)


@ext("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis", "numpy.add.at", "numpy.subtract.at", "numpy.random.shuffle")
def _copyto(I, st, args, kw, node, name="numpy.copyto"):
    from . import interp as ip
    if name.endswith("copyto") and "where" not in kw:
        I.write(st, args[0], None, args[1], node)
    else:
        I.write(st, args[0], None, ip.V(havoc("copyto")), node)
    return ip.V(NONE)


# ------------------------------------------------------------------ misc numpy
for _n, _r in (("gradient", "same"), ("unwrap", "same"), ("cumsum", "same"), ("tile", None), ("repeat", 1), ("unique", 1), ("take", None), ("argsort", "same"), ("searchsorted", "same"), ("interp", "same"),
               ("roll", "same"), ("pad", "same"), ("convolve", 1), ("correlate", 1), ("ediff1d", 1), ("isin", "same"), ("in1d", "same"), ("nanmedian", 0), ("percentile", 0), ("quantile", 0), ("dot", None), ("outer", 2), ("matmul", None),
               ("array_equal", 0), ("isscalar", 0), ("polyfit", 1), ("polyval", "same"), ("logspace", 1), ("intersect1d", 1), ("setdiff1d", 1), ("union1d", 1), ("cov", 2), ("corrcoef", 2), ("einsum", None), ("histogram", None), ("eye", 2), ("diag", None), ("may_share_memory", 0), ("shares_memory", 0), ("bincount", 1), ("digitize", "same"), ("heaviside", "same"), ("vdot", 0), ("inner", None), ("resize", None), ("broadcast_arrays", None), ("result_type", 0), ("promote_types", 0), ("find_common_type", 0), ("min_scalar_type", 0), ("can_cast", 0), ("issubdtype", 0), ("iterable", 0), ("dtype", 0), ("trapz", 0), ("meshgrid", None)):
    EXT["numpy." + _n] = pure("np." + _n, _r)


def inner(I, st, args, kw, node):
    """Product of two vectors."""
    from . import interp as ip
    if len(args) == 2 and not kw and rk(I, st, args[0]) == 1 and rk(I, st, args[1]) == 1:
        return ip.V(total(t.mul(R(I, st, args[0]), R(I, st, args[1])), 1, None))
    return None


for _n in ("dot", "inner", "vdot", "matmul"):
    def _inner(I, st, args, kw, node, _n=_n):
        v = inner(I, st, args, kw, node)
        return v if v is not None else pure("np." + _n, None)(I, st, args, kw, node)
    EXT["numpy." + _n] = _inner


@ext("numpy.linalg.solve", "numpy.linalg.inv", "numpy.linalg.lstsq", "numpy.linalg.pinv", "numpy.linalg.norm")
def _linalg(I, st, args, kw, node, name="numpy.linalg.solve"):
    from . import interp as ip
    if name.endswith("norm") and args and "axis" not in kw and len(args) < 3 and rk(I, st, args[0]) in (1, 2):
        o = A(args, kw, 1, "ord")
        o = R(I, st, o) if o is not None else NONE
        x, n = R(I, st, args[0]), rk(I, st, args[0])
        if o is NONE or o is num(2) and n == 1:
            return ip.V(_sqrt(total(t.mul(x, x), n, None)))
        if o is ONE and n == 1:
            return ip.V(total(_abs(x), 1, None))
    r = {"solve": None, "inv": 2, "norm": 0 if len(args) < 2 and "axis" not in kw else None}.get(name.split(".")[-1])
    if name.endswith("solve") and len(args) > 1:
        r = rk(I, st, args[1])
    return pure("np." + name[6:], r)(I, st, args, kw, node)


@ext("numpy.matrix", "numpy.asmatrix")
def _matrix(I, st, args, kw, node):
    x = app("np.matrix", arrlike(I, st, args[0])[0])
    arr.RANK[x] = 2
    return I.newarr(st, x, 2, node=node)


@ext("skimage.morphology.reconstruction")
def _reconstruction(I, st, args, kw, node):
    ks = [mk("tuple", py(k), R(I, st, v)) for k, v in sorted(kw.items())]
    x = app("reconstruction", *([R(I, st, a) for a in args] + ks))
    rs = [rk(I, st, a) for a in args[:2]]
    rs = [r for r in rs if r]
    if rs:
        arr.RANK.setdefault(x, rs[0])
    return I.newarr(st, x, rs[0] if rs else None, node=node)


@ext("numpy.meshgrid")
def _meshgrid(I, st, args, kw, node):
    from . import interp as ip
    out = []
    ts = [R(I, st, a) for a in args]
    for k in range(len(args)):
        x = app("meshgrid" if "indexing" not in kw else "meshgrid." + str(R(I, st, kw["indexing"]).args[0]), num(k), *ts)
        arr.RANK[x] = len(args)
        out.append(I.newarr(st, x, len(args), node=node))
    return ip.Tup(out)


@ext("numpy.size")
def _npsize(I, st, args, kw, node):
    return attr(I, st, args[0], "size", node)


@ext("numpy.shape")
def _npshape(I, st, args, kw, node):
    return attr(I, st, args[0], "shape", node)


@ext("numpy.ndim")
def _npndim(I, st, args, kw, node):
    return attr(I, st, args[0], "ndim", node)


@ext("numpy.iinfo", "numpy.finfo")
def _finfo(I, st, args, kw, node, name="numpy.finfo"):
    from . import interp as ip
    return ip.V(app(name, R(I, st, args[0])))


@ext("numpy.float64", "numpy.float32", "numpy.float16", "numpy.int64", "numpy.int32", "numpy.intp", "numpy.bool_", "numpy.int_", "numpy.float_", "numpy.longdouble", "numpy.int16", "numpy.uint8")
def _npcast(I, st, args, kw, node, name="numpy.float64"):
    from . import interp as ip
    c, r, n = arrlike(I, st, args[0])
    return fresh(I, st, I.cast(py(name), c), r, node=node)


# -------------------------------------------------------------------- builtins
@ext("builtin.len")
def _len(I, st, args, kw, node):
    from . import interp as ip
    v = args[0]
    if isinstance(v, ip.V) and v.t.op == "py" and isinstance(v.t.args[0], str):
        return ip.V(num(len(v.t.args[0])))
    return ip.V(I.simp(st, I.length(st, v)))


@ext("builtin.int", "builtin.float", "builtin.bool", "builtin.str", "builtin.complex")
def _conv(I, st, args, kw, node, name="builtin.int"):
    from . import interp as ip
    k = name.split(".")[1]
    if not args:
        return ip.V({"int": ZERO, "float": ZERO, "bool": FALSE}.get(k, py("")))
    x = R(I, st, args[0])
    if k == "float":
        if t.isnum(x):
            return ip.V(x)
        return ip.V(app("float", x)) if x.op in ("py",) or (x.op == "app" and x.args[0] == "opt") else ip.V(x)
    if k == "int":
        if t.isnum(x) and x.args[0].denominator == 1:
            return ip.V(x)
        if x.op in t.BOOLISH or x.op == "ite" and x.args[1].op in ("num", "bool"):
            return ip.V(x)
        if x.op == "app" and x.args[0] in ("len", "int"):
            return ip.V(x)
        return ip.V(app("int", x))
    if k == "bool":
        return ip.V(I.truth(st, args[0]))
    if k == "str":
        if x.op == "py" and isinstance(x.args[0], str):
            return ip.V(x)
        return ip.V(app("str", x))
    return ip.V(app(k, x))


@ext("builtin.range")
def _range(I, st, args, kw, node):
    from . import interp as ip
    xs = [R(I, st, a) for a in args]
    if len(xs) == 1:
        return ip.RangeV(ZERO, xs[0], ONE)
    if len(xs) == 2:
        return ip.RangeV(xs[0], xs[1], ONE)
    return ip.RangeV(*xs)


@ext("builtin.enumerate")
def _enum(I, st, args, kw, node):
    from . import interp as ip
    s = A(args, kw, 1, "start")
    return ip.LazyIter("enumerate", args[0], R(I, st, s) if s is not None else ZERO)


@ext("builtin.zip")
def _zip(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("zip", *args)


@ext("builtin.map")
def _map(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("map", *args)


@ext("builtin.reversed")
def _reversed(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("reversed", args[0])


@ext("builtin.iter", "tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange", "tqdm.notebook.tqdm", "tqdm.std.tqdm")
def _iter(I, st, args, kw, node, name="builtin.iter"):
    v = args[0] if args else kw.get("iterable")
    if name.startswith("tqdm"):
        I.event(st, "call", "tqdm", (), node)
    return v


@ext("builtin.list", "builtin.tuple", "builtin.set", "builtin.frozenset")
def _list(I, st, args, kw, node, name="builtin.list"):
    from . import interp as ip
    if not args:
        return ip.LRef(I.new(st, kind="list", items=())) if name != "builtin.tuple" else ip.Tup([])
    v = args[0]
    items = I.concrete_items(st, v)
    if items is not None:
        items = [x(st) if callable(x) else x for x in items]
        if name == "builtin.tuple":
            return ip.Tup(items)
        return ip.LRef(I.new(st, kind="list", items=tuple(items)))
    if isinstance(v, ip.LazyIter) and v.kind == "keys":
        return v
    if isinstance(v, ip.VIte):
        return I.join_val(v.c, st, _list(I, st, [v.a], kw, node, name), st, _list(I, st, [v.b], kw, node, name))
    if isinstance(v, ip.LRef):
        c = st.heap[v.cid]
        return ip.LRef(I.new(st, kind="list", content=c.content, items=None, members=c.members))
    return materialise(I, st, v, node)


@ext("builtin.dict", "collections.OrderedDict")
def _dict(I, st, args, kw, node):
    from . import interp as ip
    if args:
        v = args[0]
        if isinstance(v, ip.DRef):
            c = st.heap[v.cid]
            return ip.DRef(I.new(st, kind="dict", content=c.content, items=c.items, members=c.members, cls=c.cls if c.cls == "kwargs" else None))
        if isinstance(v, ip.LazyIter):
            items = I.concrete_items(st, v)
            if items is not None and all(isinstance(x, ip.Tup) and len(x.items) == 2 for x in items):
                return ip.DRef(I.new(st, kind="dict", items=tuple((R(I, st, x.items[0]), x.items[1]) for x in items)))
        return ip.DRef(I.new(st, kind="dict", content=app("dictof", R(I, st, v)), items=None))
    return ip.DRef(I.new(st, kind="dict", items=tuple((py(k), v) for k, v in kw.items() if k != "**")))


@ext("numba.typed.Dict.empty", "numba.typed.Dict")
def _nbdict(I, st, args, kw, node):
    from . import interp as ip
    return ip.DRef(I.new(st, kind="dict", items=()))


@ext("collections.defaultdict")
def _defaultdict(I, st, args, kw, node):
    from . import interp as ip
    cls = "defaultdict"
    if args and isinstance(args[0], ip.Ext) and args[0].name == "builtin.list":
        cls = "defaultdict-list"
    if len(args) > 1 or kw:
        d = _dict(I, st, args[1:], kw, node)
        c = st.heap[d.cid]
        if c.items != ():
            st.heap[d.cid] = c.upd(cls=cls)
            return d
    return ip.DRef(I.new(st, kind="dict", items=(), cls=cls))


@ext("builtin.isinstance")
def _isinstance(I, st, args, kw, node):
    from . import interp as ip
    v = args[0]
    kinds = []

    def names(x):
        if isinstance(x, ip.Tup):
            for y in x.items:
                names(y)
        elif isinstance(x, ip.Ext):
            kinds.append(canon(x.name))
        elif isinstance(x, ip.Cls):
            kinds.append(x.c.qual)
        else:
            kinds.append("?")
    names(args[1])
    if isinstance(v, ip.VIte):
        return ip.V(ite(v.c, R(I, st, _isinstance(I, st, [v.a, args[1]], kw, node)), R(I, st, _isinstance(I, st, [v.b, args[1]], kw, node))))
    if isinstance(v, ip.Ref) and (v.rk is None or v.rk >= 1):
        if "numpy.ndarray" in kinds:
            return ip.V(TRUE)
        if all(k.startswith("builtin.") for k in kinds):
            return ip.V(FALSE)
    if isinstance(v, ip.LRef):
        return ip.V(t.boolc("builtin.list" in kinds))
    if isinstance(v, ip.Tup):
        return ip.V(t.boolc("builtin.tuple" in kinds))
    if isinstance(v, ip.DRef):
        return ip.V(t.boolc("builtin.dict" in kinds))
    x = R(I, st, v)
    if x is NONE:
        return ip.V(t.boolc("builtin.NoneType" in kinds))
    if x.op == "bool":
        return ip.V(t.boolc("builtin.bool" in kinds or "builtin.int" in kinds))
    if x.op == "py" and isinstance(x.args[0], str) and v.__class__ is ip.V:
        return ip.V(t.boolc("builtin.str" in kinds))
    if x.op == "num":
        if x.args[0].denominator == 1:
            if "builtin.int" in kinds:
                return ip.V(TRUE)
        if set(kinds) <= {"numpy.ndarray", "builtin.str", "builtin.list", "builtin.tuple", "builtin.dict"}:
            return ip.V(FALSE)
    if x.op == "stack" and isinstance(v, ip.V):
        if kinds == ["builtin.int"]:
            return ip.V(FALSE)
    return ip.V(app("isinstance", x, py("|".join(sorted(kinds)))))


@ext("builtin.getattr")
def _getattr(I, st, args, kw, node):
    from . import interp as ip
    k = R(I, st, args[1])
    if k.op == "py":
        if isinstance(args[0], ip.ORef) and len(args) > 2:
            c = st.heap.get(args[0].cid)
            if c is not None and c.kind == "obj" and k.args[0] not in c.attrs and (c.cls is None or (I.find_method(c.cls, k.args[0]) is None and I.class_attr(st, c.cls, k.args[0]) is None)):
                if c.origin and c.origin.startswith("self"):
                    I.event(st, "readunset", c.origin, (args[0].cid, k.args[0]), node)
                    return I.join_val(app("hasattr", py(k.args[0])), st, ip.V(sym("@pre:%s.%s" % (c.origin, k.args[0]))), st, args[2])
                return args[2]
        return I.getattr(st, args[0], k.args[0], node)
    return ip.V(havoc("getattr"))


@ext("builtin.hasattr")
def _hasattr(I, st, args, kw, node):
    from . import interp as ip
    k = R(I, st, args[1])
    if k.op == "py" and isinstance(args[0], ip.ORef):
        c = st.heap.get(args[0].cid)
        if c is not None and c.kind == "obj":
            if k.args[0] in c.attrs or (c.cls is not None and (I.find_method(c.cls, k.args[0]) or I.class_attr(st, c.cls, k.args[0]) is not None)):
                return ip.V(TRUE)
            I.event(st, "readunset", c.origin, (args[0].cid, k.args[0]), node)
    return ip.V(app("hasattr", R(I, st, args[0]), k))


@ext("builtin.setattr")
def _setattr(I, st, args, kw, node):
    from . import interp as ip
    k = R(I, st, args[1])
    if k.op == "py":
        I.setattr(st, args[0], k.args[0], args[2], node)
    else:
        c = st.heap.get(getattr(args[0], "cid", None))
        I.event(st, "setattr", c.origin if c else "unknown", (getattr(args[0], "cid", 0), "?"), node)
    return ip.V(NONE)


@ext("builtin.vars")
def _vars(I, st, args, kw, node):
    from . import interp as ip
    if args and isinstance(args[0], ip.ORef):
        return ip.LazyIter("objdict", args[0])
    return ip.V(havoc("vars"))


@ext("builtin.callable", "builtin.print", "builtin.repr", "builtin.format", "builtin.type", "builtin.issubclass")
def _misc(I, st, args, kw, node, name="builtin.callable"):
    from . import interp as ip
    if name == "builtin.type" and isinstance(args[0], ip.ORef):
        c = st.heap.get(args[0].cid)
        if c is not None and c.cls is not None and c.kind == "obj":
            return ip.ORef(I.clscells[c.cls.qual]) if not isinstance(c.cls, str) else ip.V(havoc("type"))
    return ip.V(app(name, *[_argterm(I, st, a) for a in args]))


@ext("builtin.any", "builtin.all")
def _anyall(I, st, args, kw, node, name="builtin.any"):
    from . import interp as ip
    v = args[0]
    if isinstance(v, (ip.LazyIter, ip.Mapped)):
        v = materialise(I, st, v, node)
    items = I.concrete_items(st, v)
    f = or_ if name.endswith("any") else and_
    if items is not None:
        return ip.V(f(*[I.truth(st, x) for x in items]))
    return ip.V(app("np." + name.split(".")[1], arrlike(I, st, v)[0]))


@ext("builtin.next")
def _next(I, st, args, kw, node):
    from . import interp as ip
    return ip.V(havoc("next"))


@ext("builtin.slice")
def _slice(I, st, args, kw, node):
    from . import interp as ip
    xs = [R(I, st, a) for a in args]
    if len(xs) == 1:
        return ip.V(slc(NONE, xs[0]))
    return ip.V(slc(*xs))


@ext("builtin.filter", "itertools.filterfalse")
def _filter(I, st, args, kw, node):
    from . import interp as ip
    m = materialise(I, st, args[1], node)
    return ip.LRef(I.new(st, kind="list", content=app("filter", R(I, st, m)), items=None))


@ext("functools.partial")
def _partial(I, st, args, kw, node):
    from . import interp as ip
    return ip.Partial(args[0], args[1:], kw)


@ext("functools.reduce")
def _reduce(I, st, args, kw, node):
    from . import interp as ip
    items = _seq(I, st, args[1])
    if items is not None and (items or len(args) > 2):
        acc = args[2] if len(args) > 2 else items[0]
        for x in (items if len(args) > 2 else items[1:]):
            acc = I.call(st, args[0], [acc, x], {}, node)
        return acc
    f = args[0]
    if isinstance(f, ip.Ext) and canon(f.name) in ("operator.add", "numpy.add"):
        return _bsum(I, st, args[1:], {}, node)
    return opaque(I, st, "reduce", args, kw, node)


for _n, _op in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("pow", ast.Pow), ("mod", ast.Mod), ("floordiv", ast.FloorDiv), ("and_", ast.BitAnd), ("or_", ast.BitOr)):
    def _mkop(op):
        def f(I, st, args, kw, node):
            return I.binop(st, op(), args[0], args[1], node)
        return f
    EXT["operator." + _n] = _mkop(_op)


@ext("operator.itemgetter")
def _itemgetter(I, st, args, kw, node):
    from . import interp as ip
    return ip.Partial(ip.Ext("operator.getitem.rev"), [args[0]], {})


@ext("operator.getitem.rev")
def _getrev(I, st, args, kw, node):
    return I.getitem(st, args[1], R(I, st, args[0]), node)


@ext("operator.getitem")
def _getit(I, st, args, kw, node):
    return I.getitem(st, args[0], R(I, st, args[1]), node)


@ext("itertools.repeat")
def _repeat(I, st, args, kw, node):
    from . import interp as ip
    n = R(I, st, args[1]) if len(args) > 1 else (R(I, st, kw["times"]) if "times" in kw else app("inf"))
    return ip.LazyIter("repeat", args[0], n)


@ext("itertools.count")
def _count(I, st, args, kw, node):
    from . import interp as ip
    lo = R(I, st, args[0]) if args else ZERO
    return ip.RangeV(lo, app("inf"), R(I, st, args[1]) if len(args) > 1 else ONE)


@ext("itertools.starmap")
def _starmap(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("starmap", *args)


@ext("itertools.islice")
def _islice(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("islice", args[0], *[R(I, st, a) for a in args[1:]])


@ext("itertools.chain", "itertools.chain.from_iterable")
def _chain(I, st, args, kw, node):
    from . import interp as ip
    r = ip.LRef(I.new(st, kind="list", items=()))
    for a in args:
        list_extend(I, st, r, a, node)
    return r


@ext("contextlib.closing")
def _closing(I, st, args, kw, node):
    from . import interp as ip
    return ip.LazyIter("closing", args[0])


@ext("contextlib.suppress", "numpy.errstate", "warnings.catch_warnings", "contextlib.nullcontext", "numpy.printoptions")
def _ctx(I, st, args, kw, node, name="contextlib.suppress"):
    from . import interp as ip
    return ip.LazyIter("ctxgen", name, args[0] if args and name.endswith("nullcontext") else ip.V(NONE))


@ext("contextlib.ExitStack")
def _exitstack(I, st, args, kw, node):
    from . import interp as ip
    return ip.ORef(I.new(st, kind="exitstack", content=py("exitstack"), members=frozenset()))


@ext("logging.getLogger")
def _getlogger(I, st, args, kw, node):
    from . import interp as ip
    return ip.ORef(I.new(st, kind="logger", content=py("logger")))


# ------------------------------------------------------------------------ RNG
@ext("numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937")
def _rng(I, st, args, kw, node, name="numpy.random.RandomState"):
    from . import interp as ip
    s = A(args, kw, 0, "seed")
    x = R(I, st, s) if s is not None else NONE
    if isinstance(s, ip.ORef) and st.heap[s.cid].kind == "rng":
        return s
    content = app("entropy", py(_site(I, node))) if x is NONE else app("rng.seeded", x)
    return ip.ORef(I.new(st, kind="rng", content=content, cls=name, origin=None))


def _site(I, node):
    f = I.stack[-1][0].qual if I.stack else "?"
    return "%s:%s" % (f, getattr(node, "lineno", "?"))


DRAWS = {"normal", "uniform", "randn", "rand", "standard_normal", "random", "random_sample", "integers", "randint", "choice", "permutation", "shuffle", "gauss", "exponential", "laplace", "poisson", "beta", "gamma", "standard_t", "bytes", "triangular", "sample", "betavariate", "binomial", "multivariate_normal"}


def rng_method(I, st, obj, name, args, kw, node):
    from . import interp as ip
    c = st.heap[obj.cid]
    if name in ("seed", "set_state", "setstate"):
        x = R(I, st, args[0]) if args else (R(I, st, kw["seed"]) if "seed" in kw else NONE)
        I.event(st, "reseed", c.origin or "rng", (obj.cid,), node)
        st.heap[obj.cid] = c.upd(content=app("rng.seeded", x) if x is not NONE else app("entropy", py(_site(I, node))))
        return ip.V(NONE)
    if name in ("get_state", "getstate", "__getstate__"):
        return ip.V(app("rng.state", c.content))
    if name in ("spawn", "jumped"):
        x = app("rng.spawn", c.content, *[R(I, st, a) for a in args])
        return I.newarr(st, x, None)
    if name not in DRAWS:
        return opaque(I, st, "rng." + name, [obj] + list(args), kw, node)
    names = {"normal": ["loc", "scale", "size"], "uniform": ["low", "high", "size"], "standard_normal": ["size"], "random": ["size"], "random_sample": ["size"], "laplace": ["loc", "scale", "size"], "integers": ["low", "high", "size"], "randint": ["low", "high", "size"]}.get(name, [])
    dflt = {"normal": {"loc": ZERO, "scale": ONE}, "uniform": {"low": ZERO, "high": ONE}, "laplace": {"loc": ZERO, "scale": ONE}}.get(name, {})
    vals = {}
    for k, a in zip(names, args):
        vals[k] = a
    extra = args[len(names):]
    vals.update({k: v for k, v in kw.items() if k != "**"})
    size = vals.get("size")
    if name in ("randn", "rand"):
        size = ip.Tup(args) if args else None
        extra = []
        name = "standard_normal" if name == "randn" else "random"
        names = ["size"]
        vals = {}
    parts = []
    for k in names:
        if k == "size":
            continue
        parts.append(R(I, st, vals[k]) if k in vals else dflt.get(k, NONE))
    sh = _shape(I, st, size) if size is not None and not isnone(I, st, size) else []
    if name == "standard_normal":
        name, parts = "normal", [ZERO, ONE]
    if name in ("random", "random_sample"):
        name, parts = "uniform", [ZERO, ONE]
    shp = [d if not isinstance(d, tuple) else d[1] for d in (sh or [])]
    parts.append(mk("tuple", *shp))
    parts += [R(I, st, a) for a in extra]
    post = None
    if name == "normal" and len(parts) >= 3:        # loc + scale * standard draw
        post, parts = (parts[0], parts[1]), [ZERO, ONE] + parts[2:]
    elif name == "uniform" and len(parts) >= 3:     # low + (high - low) * unit draw
        post, parts = (parts[0], t.sub(parts[1], parts[0])), [ZERO, ONE] + parts[2:]
    x = app("draw." + name, c.content, *parts)
    r = _shape_rank(sh) if sh is not None else None
    if r is not None:
        arr.RANK.setdefault(x, r)
        if r >= 1 and sh and not isinstance(sh[0], tuple):
            arr.NROWS[x] = sh[0]
    I.event(st, "draw", c.origin or "rng", (obj.cid, x), node)
    st.heap[obj.cid] = c.upd(content=app("rng.next", x))
    if name in ("shuffle",):
        I.write(st, args[0], None, ip.V(havoc("shuffle")), node)
        return ip.V(NONE)
    if post is not None:
        x = t.add(post[0], t.mul(post[1], x))
    if r == 0:
        return ip.V(x)
    return I.newarr(st, x, r, node=node)


# ---------------------------------------------------------------------- pools
def make_pool(I, st, name, args, kw, node):
    from . import interp as ip
    cid = I.new(st, kind="pool", content=TRUE, cls=name, site="%s:%s" % (_site(I, node), name))
    I.event(st, "call", "pool.open", (cid, tuple(R(I, st, a) for a in args) + tuple(R(I, st, v) for k, v in kw.items() if k in ("processes", "max_workers"))), node)
    return ip.ORef(cid)


def open_pools(st):
    out = []
    for cid, c in st.heap.items():
        if c.kind == "pool" and c.content is not FALSE:
            out.append(cid)
    return out


def release(I, st, obj, node):
    c = st.heap.get(obj.cid)
    if c is not None and c.kind == "pool":
        st.heap[obj.cid] = c.upd(content=FALSE)


def release_ctx(I, st, v, node):
    from . import interp as ip
    if isinstance(v, ip.VIte):
        release_ctx(I, st, v.a, node)
        release_ctx(I, st, v.b, node)
        return
    if isinstance(v, ip.LazyIter) and v.kind == "closing":
        release_ctx(I, st, v.args[0], node)
        return
    if not isinstance(v, ip.ORef):
        return
    c = st.heap.get(v.cid)
    if c is None:
        return
    if c.kind == "pool":
        st.heap[v.cid] = c.upd(content=FALSE)
    elif c.kind == "exitstack":
        for m in c.members:
            release_ctx(I, st, ip.ORef(m), node)
    elif c.kind == "obj" and c.cls is not None:
        ex = I.find_method(c.cls, "__exit__")
        if ex is not None:
            I.call_fn(st, ip.Fn(ex), [v, ip.V(NONE), ip.V(NONE), ip.V(NONE)], {}, node)


def pool_method(I, st, obj, name, args, kw, node):
    from . import interp as ip
    if name in ("close", "terminate", "shutdown"):
        release(I, st, obj, node)
        return ip.V(NONE)
    if name in ("join", "__exit__"):
        if name == "__exit__":
            release(I, st, obj, node)
        return ip.V(NONE)
    if name == "__enter__":
        return obj
    if name in ("map", "imap", "imap_unordered", "starmap", "map_async", "starmap_async"):
        cls = st.heap[obj.cid].cls or ""
        f = args[0]
        src = args[1] if len(args) > 1 else kw.get("iterable")
        if isinstance(src, ip.LazyIter) and src.kind not in ("enumerate", "zip", "repeat", "keys", "values", "items"):
            src = materialise(I, st, src, node)
        elif isinstance(src, ip.LazyIter):
            src = ip.LazyIter(src.kind, *[materialise(I, st, a, node) if isinstance(a, ip.LazyIter) and a.kind in ("gen", "map") else a for a in src.args])
        srcs = [src] + ([a for a in args[2:]] if "Executor" in cls else [])
        iota = mk("iota", "/".join(I.ctx) + "/pool@%s" % getattr(node, "lineno", "?"))
        snap = st.fork()
        I.may_raise(st, node, "pool." + name)
        n = None
        vals = []
        for s_ in srcs:
            k, el = I.sym_iter(st, s_, node)
            n = k if n is None else n
            vals.append(el(snap, iota))
        I.parallel_depth += 1
        I.loopdepth += 1
        old = I.ctx
        I.ctx = I.ctx + ("pool@%s" % getattr(node, "lineno", "?"),)
        pd = len(I.pending)
        if name.startswith("starmap"):
            vs = I.unpack(snap, vals[0], None, node) or [ip.V(havoc("star"))]
            r = I.call(snap, f, vs, {}, node)
        else:
            r = I.call(snap, f, vals, {}, node)
        I.ctx = old
        I.loopdepth -= 1
        I.parallel_depth -= 1
        del I.pending[pd:]
        m = ip.Mapped(n, iota, r, name == "imap_unordered", snap.heap)
        I.event(st, "poolmap", name, (m, "thread" if "hread" in cls else "process"), node)
        if name.endswith("_async"):
            return ip.LazyIter("asyncresult", m)
        return m
    if name in ("apply", "apply_async", "submit"):
        f = args[0]
        a2 = args[1:] if name == "submit" else (I.concrete_items(st, args[1]) if len(args) > 1 else [])
        snap = st.fork()
        I.may_raise(st, node, "pool." + name)
        pd = len(I.pending)
        r = I.call(snap, f, list(a2 or []), {}, node)
        del I.pending[pd:]
        I.event(st, "poolmap", name, (ip.Mapped(ONE, mk("iota", "/".join(I.ctx) + "/pool@%s" % getattr(node, "lineno", "?")), r, False, snap.heap), "process"), node)
        x = I.read(snap, r)
        v = I.newarr(st, x, rank(x)) if not isinstance(r, ip.Tup) else ip.Tup([I.newarr(st, I.read(snap, y), rank(I.read(snap, y))) for y in r.items])
        return ip.LazyIter("asyncresult", v) if name != "apply" else v
    return opaque(I, st, "pool." + name, args, kw, node)


# ----------------------------------------------------------------- attributes
def attr(I, st, o, name, node):
    """Plain attribute of an array-like value, or None when it is a method."""
    from . import interp as ip
    if isinstance(o, (ip.Ref, ip.V, ip.LRef, ip.DElem, ip.VIte)):
        if name == "shape" and not isinstance(o, (ip.LRef,)):
            r = rk(I, st, o)
            if r is None:
                return ip.V(app("shape", R(I, st, o)))
            if r == 0:
                return ip.Tup([])
            n = I.length(st, o)
            if r == 1:
                return ip.Tup([ip.V(n)])
            x = R(I, st, o)
            dims = [ip.V(n)]
            for k in range(1, r):
                d = app("dim", _dimbase(x), num(k))
                arr.RANK[d] = 0
                dims.append(ip.V(d))
            return ip.Tup(dims)
        if name == "size":
            r = rk(I, st, o)
            if r == 1:
                return ip.V(I.length(st, o))
            x = app("size", R(I, st, o))
            arr.RANK[x] = 0
            return ip.V(x)
        if name == "ndim":
            r = rk(I, st, o)
            return ip.V(num(r)) if r is not None else ip.V(app("ndim", R(I, st, o)))
        if name == "dtype":
            if isinstance(o, ip.Ref):
                c = st.heap.get(o.cid)
                if c is not None and c.dtype is not None:
                    return ip.V(c.dtype)
            x = app("dtype", _dtbase(R(I, st, o)))
            return ip.V(x)
        if name == "T":
            r = rk(I, st, o)
            if r is not None and r <= 1:
                return o
            x = app("np.transpose", R(I, st, o))
            if r is not None:
                arr.RANK.setdefault(x, r)
            return view(I, st, o, x, r, node)
        if name in ("real", "imag") and isinstance(o, (ip.Ref, ip.V)):
            r = rk(I, st, o)
            x = app(name, R(I, st, o))
            if r is not None:
                arr.RANK.setdefault(x, r)
            return view(I, st, o, x, r, node) if r != 0 else ip.V(x)
        if name == "flat":
            return o
        if name in ("flags", "nbytes", "itemsize", "base", "strides", "data", "nmant", "max", "min", "eps", "bits") and (name not in ("max", "min") or (isinstance(o, ip.V) and o.t.op == "app" and o.t.args[0] in ("numpy.iinfo", "numpy.finfo"))):
            return ip.V(app("attr." + name, R(I, st, o)))
    if isinstance(o, ip.LazyIter) and o.kind == "asyncresult":
        return None
    return None


def _dimbase(x):
    """Canonical carrier of the trailing shape."""
    for _ in range(20):
        if x.op == "stack" and x.args:
            k, y = x.args[-1]
            if k == "mat":
                x = y
                continue
        if x.op == "poly" or (x.op == "app" and x.args[0] in arr.ELEMWISE):
            c = arr._len_atom(x)
            if c is not None and c is not x:
                x = c
                continue
        if x.op == "idx" and x.args[1].op == "slice":
            x = x.args[0]
            continue
        if x.op == "store":
            x = x.args[0]
            continue
        break
    return x


def _dtbase(x):
    return x


# --------------------------------------------------------------------- calls
def call_ext(I, st, name, args, kw, node):
    from . import interp as ip
    name = canon(name)
    if name in POOLS or name.endswith((".Pool", ".ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor")):
        return make_pool(I, st, name, args, kw, node)
    if name in GLOBAL_MUT and GLOBAL_MUT[name]:
        I.event(st, "global", GLOBAL_MUT[name], name, node)
    if name in FILE_EFFECTS:
        I.event(st, "extern", name, None, node)
    if name in IMPURE:
        I.event(st, "impure", name, None, node)
        x = app("impure", py(name), py("%s.%s" % (_site(I, node), getattr(node, "col_offset", 0))))
        arr.RANK[x] = 0
        return ip.V(x)
    if (name.startswith("numpy.random.") or name.startswith("random.")) and name.split(".")[-1] in DRAWS and name not in EXT:
        I.event(st, "impure", name, None, node)
        x = app("impure", py(name), py(_site(I, node)), *[_argterm(I, st, a) for a in args])
        return I.newarr(st, x, None, node=node)
    if name.startswith("scipy.stats.") and name.endswith(".rvs"):
        I.event(st, "impure", name, None, node)
        return I.newarr(st, app("impure", py(name), py(_site(I, node))), None, node=node)
    if name.startswith("os.environ.__setitem__"):
        I.event(st, "global", "environment", name, node)
    for k, v in kw.items():
        if k.startswith("overwrite_") and R(I, st, v) is TRUE and args:
            for a in args[:1]:
                if isinstance(a, (ip.Ref, ip.VIte)):
                    I.write(st, a, None, ip.V(havoc("overwrite")), node)
    h = EXT.get(name)
    if not name.startswith(("builtin.", "logging", "math.", "operator.", "functools.", "itertools.", "collections.")):
        I.may_raise(st, node, name)
    if h is not None:
        try:
            if "name" in h.__code__.co_varnames[: h.__code__.co_argcount]:
                return h(I, st, args, kw, node, name=name)
            return h(I, st, args, kw, node)
        except (ip.StopAnalysis, RecursionError):
            raise
        except Exception as e:
            I.note("model of %s failed: %s" % (name, e), node)
            return I.newarr(st, havoc("ext:" + name), None, node=node)
    if name.startswith("builtin.object."):
        return ip.V(NONE)
    if name.startswith("builtin.") and name.split(".")[1] in ("ValueError", "TypeError", "Exception", "RuntimeError", "AttributeError", "AssertionError", "KeyError", "IndexError", "NotImplementedError", "Warning", "DeprecationWarning", "UserWarning", "super"):
        return ip.V(app("exc", py(name)))
    out = kw.get("out")
    if out is not None and not isnone(I, st, out):
        r = opaque(I, st, name, args, {k: v for k, v in kw.items() if k != "out"}, node)
        I.write(st, out, None, r, node)
        return out
    return opaque(I, st, name, args, kw, node)


def call_method(I, st, obj, name, args, kw, node):
    from . import interp as ip
    if isinstance(obj, ip.VIte):
        base = st.guard
        s1, s2 = st.fork(obj.c), st.fork(not_(obj.c))
        v1 = call_method(I, s1, obj.a, name, args, kw, node)
        v2 = call_method(I, s2, obj.b, name, args, kw, node)
        j, v = I.join2(obj.c, s1, s2, base, v1, v2)
        st.set(j)
        return v
    try:
        return _call_method(I, st, obj, name, args, kw, node)
    except (ip.StopAnalysis, RecursionError):
        raise
    except Exception as e:
        I.note("model of method %s failed: %s" % (name, e), node)
        return I.newarr(st, havoc("meth:" + name), None, node=node)


def _call_method(I, st, obj, name, args, kw, node):
    from . import interp as ip
    if isinstance(obj, ip.ORef):
        c = st.heap.get(obj.cid)
        if c is not None:
            if c.kind == "rng":
                I.may_raise(st, node, "rng." + name)
                return rng_method(I, st, obj, name, args, kw, node)
            if c.kind == "pool":
                return pool_method(I, st, obj, name, args, kw, node)
            if c.kind == "logger":
                if name in ("setLevel", "addHandler", "removeHandler", "addFilter"):
                    I.event(st, "global", "logger configuration", name, node)
                return ip.V(NONE)
            if c.kind == "exitstack":
                if name in ("enter_context", "push"):
                    v = args[0]
                    if isinstance(v, ip.LazyIter) and v.kind == "closing":
                        v = v.args[0]
                    if isinstance(v, ip.ORef):
                        st.heap[obj.cid] = c.upd(members=c.members | frozenset([v.cid]))
                    return v
                if name == "callback":
                    f = args[0]
                    if isinstance(f, ip.ExtM) and isinstance(f.obj, ip.ORef) and f.name in ("close", "terminate", "shutdown"):
                        st.heap[obj.cid] = c.upd(members=c.members | frozenset([f.obj.cid]))
                    return ip.V(NONE)
                if name in ("close", "__exit__"):
                    release_ctx(I, st, obj, node)
                    return ip.V(NONE)
            if c.kind == "ext":
                return ext_method(I, st, obj, name, args, kw, node)
            if c.kind == "obj" and name in ("__setattr__",) and len(args) == 2:
                return _setattr(I, st, [obj] + list(args), kw, node)
        return opaque(I, st, "m:" + name, [obj] + list(args), kw, node)
    if isinstance(obj, ip.LazyIter) and obj.kind == "objdict":
        return objdict(I, st, obj.args[0], name, args, kw, node)
    if isinstance(obj, ip.LazyIter) and obj.kind == "asyncresult":
        if name == "get" or name == "result":
            return obj.args[0]
        return ip.V(NONE)
    if isinstance(obj, ip.LRef):
        return list_method(I, st, obj, name, args, kw, node)
    if isinstance(obj, ip.DRef):
        return dict_method(I, st, obj, name, args, kw, node)
    if isinstance(obj, ip.DElem):
        c = st.heap[obj.cid]
        if name == "append":
            I.event(st, "write", c.origin or "local", frozenset([obj.cid]), node)
            c = I.dict_abs(st, obj.cid)
            st.heap[obj.cid] = c.upd(content=app("dappend", c.content, obj.key, R(I, st, args[0])), members=c.members | frozenset(I.roots(st, args[0])))
            return ip.V(NONE)
        obj = ip.V(R(I, st, obj))
    if isinstance(obj, ip.Fn):
        return opaque(I, st, "fn." + name, args, kw, node)
    if isinstance(obj, ip.V) and obj.t.op == "py" and isinstance(obj.t.args[0], str):
        s = obj.t.args[0]
        ts = [_argterm(I, st, a) for a in args]
        if name in ("lower", "upper", "strip", "title", "capitalize", "casefold", "lstrip", "rstrip", "replace", "startswith", "endswith", "removeprefix", "removesuffix", "split", "find") \
                and not kw and all(x.op == "py" and isinstance(x.args[0], str) for x in ts):
            v = getattr(s, name)(*[x.args[0] for x in ts])
            if isinstance(v, bool):
                return ip.V(TRUE if v else FALSE)
            if isinstance(v, list):
                return ip.Tup(tuple(ip.V(py(x)) for x in v))
            return ip.V(py(v) if isinstance(v, str) else num(v))
        return ip.V(app("str", obj.t, py(name), *[_argterm(I, st, a) for a in args]))
    if isinstance(obj, ip.V) and name in ("lower", "upper", "strip", "format", "startswith", "endswith", "split", "join", "replace", "casefold"):
        return ip.V(app("str." + name, obj.t, *[_argterm(I, st, a) for a in args]))
    if name == "sort" and isinstance(obj, ip.Ref):
        x = app("np.sort", R(I, st, obj))
        if obj.rk is not None:
            arr.RANK.setdefault(x, obj.rk)
        I.write(st, obj, None, x, node)
        return ip.V(NONE)
    if name == "__setitem__":
        I.write(st, obj, R(I, st, args[0]), args[1], node)
        return ip.V(NONE)
    if name == "__getitem__":
        return I.getitem(st, obj, R(I, st, args[0]), node)
    if name in ("__iadd__", "__isub__", "__imul__", "__itruediv__"):
        op = {"__iadd__": ast.Add, "__isub__": ast.Sub, "__imul__": ast.Mult, "__itruediv__": ast.Div}[name]
        nv = I.binop(st, op(), obj, args[0], node)
        I.write(st, obj, None, nv, node)
        return obj
    h = METHODS.get(name)
    if h is not None:
        return h(I, st, obj, args, kw, node)
    if "numpy." + name in EXT and isinstance(obj, (ip.Ref, ip.V)) and name in ("cumsum", "take", "repeat", "argsort", "searchsorted", "dot", "tolist"):
        return call_ext(I, st, "numpy." + name, [obj] + list(args), kw, node)
    I.may_raise(st, node, "m:" + name)
    return opaque(I, st, "m:" + name, [obj] + list(args), kw, node)


def objdict(I, st, ob, name, args, kw, node):
    from . import interp as ip
    c = st.heap.get(ob.cid) if isinstance(ob, ip.ORef) else None
    if c is None:
        return ip.V(havoc("__dict__"))
    if name == "copy":
        return ip.DRef(I.new(st, kind="dict", items=tuple((py(k), v) for k, v in sorted(c.attrs.items()))))
    if name == "keys":
        return ip.Tup([ip.V(py(k)) for k in sorted(c.attrs)])
    if name == "get":
        k = R(I, st, args[0])
        if k.op == "py":
            return I.getattr(st, ob, k.args[0], node)
    if name == "update":
        src = args[0] if args else None
        if isinstance(src, ip.DRef) and st.heap[src.cid].items is not None and st.heap[src.cid].cls is None:
            for k, v in st.heap[src.cid].items:
                I.setattr(st, ob, k.args[0], v, node)
            return ip.V(NONE)
        I.event(st, "setattr", c.origin, (ob.cid, "*"), node)
        return ip.V(NONE)
    return ip.V(havoc("__dict__." + name))


def list_method(I, st, o, name, args, kw, node):
    from . import interp as ip
    c = st.heap[o.cid]
    if name == "append":
        I.list_append(st, o, args[0], node)
        return ip.V(NONE)
    if name == "extend":
        list_extend(I, st, o, args[0], node)
        return ip.V(NONE)
    if name == "copy":
        return deepcopy_shallow(I, st, o)
    if name == "insert":
        I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
        k = R(I, st, args[0])
        if c.items is not None and t.isnum(k) and I.loopdepth == c_depth(c):
            it = list(c.items)
            it.insert(int(k.args[0]), args[1])
            st.heap[o.cid] = c.upd(items=tuple(it))
        else:
            c = I.list_to_abs(st, o.cid)
            if k is ZERO:
                base = c.content.args if c.content.op == "stack" else (("mat", c.content),)
                st.heap[o.cid] = c.upd(content=t.stack(*((("row", R(I, st, args[1])),) + tuple(base))), members=c.members | frozenset(I.roots(st, args[1])))
            else:
                st.heap[o.cid] = c.upd(content=app("listinsert", c.content, k, R(I, st, args[1])))
        return ip.V(NONE)
    if name in ("sort", "reverse", "clear", "remove"):
        I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
        if name == "clear":
            st.heap[o.cid] = c.upd(items=(), content=None)
        elif name == "reverse" and c.items is not None:
            st.heap[o.cid] = c.upd(items=tuple(reversed(c.items)))
        else:
            x = R(I, st, o)
            y = app("np.sort", x) if name == "sort" else (idx(x, slc(NONE, NONE, num(-1))) if name == "reverse" else app("listremove", x, R(I, st, args[0])))
            arr.RANK.setdefault(y, rank(x))
            st.heap[o.cid] = c.upd(items=None, content=y)
        return ip.V(NONE)
    if name == "pop":
        I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
        k = R(I, st, args[0]) if args else num(-1)
        v = I.getitem(st, o, k, node)
        if c.items is not None and t.isnum(k):
            it = list(c.items)
            if it:
                it.pop(int(k.args[0]))
            st.heap[o.cid] = c.upd(items=tuple(it))
        else:
            x = R(I, st, o)
            st.heap[o.cid] = c.upd(items=None, content=idx(x, slc(NONE, num(-1))) if t.isnum(k) and k.args[0] == -1 else (idx(x, slc(ONE)) if k is ZERO else app("listpop", x, k)))
        return v
    if name == "__getitem__":
        return I.getitem(st, o, R(I, st, args[0]), node)
    if name in ("index", "count"):
        return ip.V(app("list." + name, R(I, st, o), *[R(I, st, a) for a in args]))
    return opaque(I, st, "m:" + name, [o] + list(args), kw, node)


def c_depth(c):
    return getattr(c, "depth", 0) or 0


def deepcopy_shallow(I, st, o):
    c = st.heap[o.cid]
    return type(o)(I.new(st, kind=c.kind, content=c.content, items=c.items, members=c.members, cls=c.cls))


def dict_method(I, st, o, name, args, kw, node):
    from . import interp as ip
    c = st.heap[o.cid]
    if name in ("get", "pop", "setdefault") and c.cls == "kwargs":
        k = R(I, st, args[0])
        if c.items is not None:
            for kk, v in c.items:
                if kk is k:
                    return v
        d = args[1] if len(args) > 1 else kw.get("default")
        dx = R(I, st, d) if d is not None else NONE
        x = app("opt", k, dx)
        I.event(st, "call", "option", (k, dx, py(name)), node)
        return ip.V(x)
    if name == "get":
        k = R(I, st, args[0])
        if c.items is not None and t.isconst(k):
            for kk, v in c.items:
                if kk is k:
                    return v
            if all(t.isconst(kk) for kk, _ in c.items):
                return args[1] if len(args) > 1 else ip.V(NONE)
        v = I.dict_get(st, o, k, node)
        d = args[1] if len(args) > 1 else ip.V(NONE)
        return I.join_val(app("in", k, R(I, st, o)), st, v, st, d)
    if name in ("keys", "values", "items"):
        return ip.LazyIter(name, o)
    if name == "copy":
        return deepcopy_shallow(I, st, o)
    if name == "pop":
        I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
        k = R(I, st, args[0])
        v = I.dict_get(st, o, k, node)
        if isinstance(v, ip.DElem):
            v = ip.V(app("dget", R(I, st, o), k))
        if c.items is not None and t.isconst(k):
            st.heap[o.cid] = c.upd(items=tuple(x for x in c.items if x[0] is not k))
        else:
            c = I.dict_abs(st, o.cid)
            st.heap[o.cid] = c.upd(content=app("dpop", c.content, k))
        return v
    if name == "setdefault":
        k = R(I, st, args[0])
        d = args[1] if len(args) > 1 else ip.V(NONE)
        if isinstance(d, ip.LRef) and (c.items is None or I.loopdepth):
            # d.setdefault(k, []) behaves like a defaultdict(list)
            I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
            return ip.DElem(o.cid, k)
        if c.items is not None and t.isconst(k):
            for kk, v in c.items:
                if kk is k:
                    return v
            I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
            st.heap[o.cid] = c.upd(items=c.items + ((k, d),))
            return d
        cond = app("in", k, R(I, st, o))
        v = I.dict_get(st, o, k, node)
        I.dict_store(st, o, k, I.join_val(cond, st, v, st, d), node)
        return I.join_val(cond, st, v, st, d)
    if name in ("update", "clear", "popitem", "__setitem__"):
        if name == "__setitem__":
            I.dict_store(st, o, R(I, st, args[0]), args[1], node)
            return ip.V(NONE)
        I.event(st, "write", c.origin or "local", frozenset([o.cid]), node)
        if name == "clear":
            st.heap[o.cid] = c.upd(items=(), content=None)
            return ip.V(NONE)
        if name == "update":
            src = list(kw.items())
            if args and isinstance(args[0], ip.DRef) and st.heap[args[0].cid].items is not None:
                for k, v in st.heap[args[0].cid].items:
                    I.dict_store(st, o, k, v, node)
            elif args:
                c2 = I.dict_abs(st, o.cid)
                st.heap[o.cid] = c2.upd(content=app("dupdate", c2.content, R(I, st, args[0])))
            for k, v in src:
                I.dict_store(st, o, py(k), v, node)
            return ip.V(NONE)
        c2 = I.dict_abs(st, o.cid)
        st.heap[o.cid] = c2.upd(content=app("dpopitem", c2.content))
        return ip.V(havoc("popitem"))
    return opaque(I, st, "m:" + name, [o] + list(args), kw, node)


def ext_method(I, st, obj, name, args, kw, node):
    return opaque(I, st, "m:" + name, [obj] + list(args), kw, node)


def cached_result(I, st, f, args, val, node):
    """Memoised function: array results are shared between calls."""
    from . import interp as ip
    I.event(st, "call", "cached:" + f.qual, (), node)

    def tag(v):
        if isinstance(v, ip.Ref):
            c = st.heap[v.cid]
            if c.origin is None:
                st.heap[v.cid] = c.upd(origin="cache:" + f.qual)
        elif isinstance(v, ip.Tup):
            for x in v.items:
                tag(x)
        elif isinstance(v, ip.VIte):
            tag(v.a)
            tag(v.b)
        elif isinstance(v, (ip.LRef, ip.DRef)):
            c = st.heap[v.cid]
            if c.origin is None:
                st.heap[v.cid] = c.upd(origin="cache:" + f.qual)
    tag(val)
    return val
