"""Parsed program: modules, classes, functions of the analysed package."""
import ast
import os


class FuncInfo:
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self._gen = None
        self.decorators = [_dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, "decorator_list", [])]

    @property
    def qual(self):
        return self.module.name + "." + (self.cls.name + "." if self.cls else "") + self.name

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_class(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "cached_property") for d in self.decorators)

    @property
    def is_cached(self):
        return any(d.split(".")[-1] in ("cache", "lru_cache", "cached_property", "memoize") for d in self.decorators)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._gen


def walk_own(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return _dotted(n.value) + "." + n.attr
    return "?"


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.bases = [_dotted(b) for b in node.bases]
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s.name, s, module, self)

    @property
    def qual(self):
        return self.module.name + "." + self.name


class ModuleInfo:
    def __init__(self, name, path, root):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, root)
        with open(path, "rb") as f:
            self.source = f.read().decode("utf8")
        self.tree = ast.parse(self.source, path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}
        self.toplevel = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(s.name, s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s.name, s, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self.add_import(s, self.imports)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, ast.If):
                if is_main_guard(s):
                    continue
                v = version_test(s.test)
                if v is not False:
                    self._scan(s.body)
                if v is not True:
                    self._scan(s.orelse)
            else:
                self.toplevel.append(s)

    @staticmethod
    def add_import(s, d):
        if isinstance(s, ast.Import):
            for a in s.names:
                d[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        else:
            for a in s.names:
                d[a.asname or a.name] = (s.module or "") + "." + a.name


def is_main_guard(s):
    return isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__"


def version_test(e):
    if isinstance(e, ast.Compare) and _dotted(e.left) == "sys.version_info" and len(e.ops) == 1:
        try:
            v = ast.literal_eval(e.comparators[0])
        except Exception:
            return None
        if isinstance(e.ops[0], (ast.GtE, ast.Gt)) and v <= (3, 12):
            return True
        if isinstance(e.ops[0], (ast.Lt, ast.LtE)) and v <= (3, 12):
            return False
    return None


class Program:
    def __init__(self, root, package="PyEMD"):
        self.root = root
        self.modules = {}
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    self.modules[name] = ModuleInfo(name, p, root)

    def functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def resolve(self, dotted, depth=0, head=False):
        """Resolve a dotted path to ('func',F) / ('class',C) / ('module',M) / ('ext',dotted)."""
        if depth > 8:
            return ("ext", dotted)
        if dotted in self.modules:
            if not head and "." in dotted:
                pk, last = dotted.rsplit(".", 1)
                m = self.modules.get(pk)
                if m is not None and last in m.imports:
                    return self.resolve(m.imports[last], depth + 1)
            return ("module", self.modules[dotted])
        if "." in dotted:
            head, last = dotted.rsplit(".", 1)
            r = self.resolve(head, depth + 1, head=True)
            if r[0] == "module":
                m = r[1]
                if last in m.funcs:
                    return ("func", m.funcs[last])
                if last in m.classes:
                    return ("class", m.classes[last])
                if last in m.imports:
                    return self.resolve(m.imports[last], depth + 1)
                return ("global", m, last)
        return ("ext", dotted)
