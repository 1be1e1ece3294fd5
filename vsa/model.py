"""
Program model of the analysed tree: modules, imports, classes (with C3 MRO),
functions (incl. nested), attribute types.  Everything comes from `ast`; the
analysed code is parsed, never imported or executed.
"""
import ast
import hashlib
import os

PKG = "vtelem"


class ModelError(Exception):
    """The tree could not be parsed / an anchor vanished (analysis broken)."""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}      # name -> ('imp', mod, attr|None) | ('def', FI) | ('cls', CI) | ('var',)
        self.rel = path

    def __repr__(self):
        return "<mod %s>" % self.name


class FI:
    """A function (method, nested function or lambda)."""
    n = 0

    def __init__(self, name, node, module, cls, parent):
        self.name, self.node, self.module, self.cls, self.parent = (
            name, node, module, cls, parent)
        self.is_lambda = isinstance(node, ast.Lambda)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decos = []
        for d in getattr(node, "decorator_list", []):
            d = d.func if isinstance(d, ast.Call) else d
            self.decos.append(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
        self.nested = {}
        FI.n += 1
        self.uid = FI.n
        self._locals = None
        self._gen = None

    @property
    def qual(self):
        if self.parent is not None:
            return self.parent.qual + ".<locals>." + self.name
        if self.cls is not None:
            return self.cls.name + "." + self.name
        return self.module.name + ":" + self.name

    @property
    def is_static(self):
        return "staticmethod" in self.decos

    @property
    def is_classmethod(self):
        return "classmethod" in self.decos

    @property
    def is_property(self):
        return "property" in self.decos or "cached_property" in self.decos

    @property
    def is_ctxmgr(self):
        return "contextmanager" in self.decos or "asynccontextmanager" in self.decos

    def loc(self, node=None):
        node = node or self.node
        return "%s:%d" % (self.module.rel, getattr(node, "lineno", 0))

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def locals(self):
        """(locals, nonlocals, globals) of this function."""
        if self._locals is None:
            loc, nl, gl = set(), set(), set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                loc.add(x.arg)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            body = self.node.body if isinstance(self.node.body, list) else [self.node.body]

            def visit(n):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    loc.add(n.name)
                    for d in n.decorator_list:
                        visit(d)
                    return
                if isinstance(n, ast.Lambda):
                    return
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # comprehension targets are their own scope
                    for g in n.generators:
                        visit(g.iter)
                        for i in g.ifs:
                            visit_walrus(i)
                    return
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    loc.add(n.id)
                elif isinstance(n, ast.Nonlocal):
                    nl.update(n.names)
                elif isinstance(n, ast.Global):
                    gl.update(n.names)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        loc.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    loc.add(n.name)
                for c in ast.iter_child_nodes(n):
                    visit(c)

            def visit_walrus(n):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        loc.add(c.target.id)

            for s in body:
                visit(s)
            self._locals = (loc - nl - gl, nl, gl)
        return self._locals

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            stack = list(self.node.body) if isinstance(self.node.body, list) else [self.node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self._gen = True
                    break
                stack.extend(ast.iter_child_nodes(n))
        return self._gen

    def __repr__(self):
        return "<fn %s>" % self.qual


class CI:
    """A class."""

    def __init__(self, name, node, module, parent=None):
        self.name, self.node, self.module, self.parent = name, node, module, parent
        self.methods, self.assigns, self.anns = {}, {}, {}
        self.bases = []
        self._mro = None
        self._attrs = None

    def __repr__(self):
        return "<class %s>" % self.name

    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class Program:
    def __init__(self, root):
        self._busy = set()
        self.root = root
        self.modules = {}
        self.classes = []
        self.functions = []
        self.fi_by_node = {}
        self.ci_by_node = {}
        base = os.path.join(root, PKG)
        if not os.path.isdir(base):
            raise ModelError("package directory %s not found" % base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            self._index(m)
        for c in self.classes:
            c.bases = [self.resolve_expr(b, c.module) for b in c.node.bases]
        self.subclasses = {}
        for c in self.classes:
            for b in self.mro(c)[1:]:
                if isinstance(b, CI):
                    self.subclasses.setdefault(b, []).append(c)

    # -- loading
    def _load(self, path):
        with open(path, "rb") as f:
            raw = f.read()
        src = raw.decode("utf-8")
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise ModelError("cannot parse %s: %s" % (path, e))
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        m = Module(name, path, tree, src)
        m.rel = rel
        m.is_pkg = path.endswith("__init__.py")
        m.digest = hashlib.sha256(raw).hexdigest()
        self.modules[name] = m

    def _index(self, m):
        def do_import(n, names):
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        names[al.asname] = ("imp", al.name, None)
                    else:
                        names[al.name.split(".")[0]] = ("imp", al.name.split(".")[0], None)
            else:
                mod = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    mod = ".".join(parts + ([mod] if mod else []))
                for al in n.names:
                    names[al.asname or al.name] = ("imp", mod, al.name)

        self._do_import = do_import

        def visit(body, cls, fn, names):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FI(n.name, n, m, cls, fn)
                    self.functions.append(f)
                    self.fi_by_node[n] = f
                    if names is not None:
                        names[n.name] = ("def", f)
                    if cls is not None and fn is None:
                        cls.methods[n.name] = f
                    if fn is not None:
                        fn.nested[n.name] = f
                    visit(n.body, None, f, None)
                elif isinstance(n, ast.ClassDef):
                    c = CI(n.name, n, m, fn)
                    self.classes.append(c)
                    self.ci_by_node[n] = c
                    if names is not None:
                        names[n.name] = ("cls", c)
                    visit(n.body, c, None, None)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    if names is not None:
                        do_import(n, names)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            if names is not None:
                                names[t.id] = ("var",)
                            if cls is not None and fn is None:
                                cls.assigns[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    if names is not None:
                        names[n.target.id] = ("var",)
                    if cls is not None and fn is None:
                        cls.anns[n.target.id] = n.annotation
                        if n.value is not None:
                            cls.assigns[n.target.id] = n.value
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        sub = getattr(n, fld, None)
                        if isinstance(sub, list):
                            visit(sub, cls, fn, names)
                    for h in getattr(n, "handlers", []):
                        visit(h.body, cls, fn, names)
                    for cs in getattr(n, "cases", []):
                        visit(cs.body, cls, fn, names)
                    if names is not None:
                        for t in ast.walk(n):
                            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                                names.setdefault(t.id, ("var",))

        visit(m.tree.body, None, None, m.names)

    # -- lookup
    def lookup(self, module, name, _seen=None):
        """Resolve a global name to ('def',FI)|('cls',CI)|('mod',Module)|('ext',dotted)|('var',Module,name)|None."""
        b = module.names.get(name)
        if b is None:
            return None
        if b[0] == "imp":
            _, mod, attr = b
            if attr is None:
                if mod in self.modules:
                    return ("mod", self.modules[mod])
                return ("ext", mod)
            if mod in self.modules:
                sub = mod + "." + attr
                seen = _seen or set()
                if (mod, attr) in seen:
                    return None
                seen.add((mod, attr))
                r = self.lookup(self.modules[mod], attr, seen)
                if r is not None:
                    return r
                if sub in self.modules:
                    return ("mod", self.modules[sub])
                return None
            return ("ext", mod + "." + attr)
        if b[0] == "var":
            return ("var", module, name)
        return b

    def resolve_expr(self, e, module):
        """Resolve a (dotted) class expression to a CI or an external dotted name."""
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(e.value, module)
        if isinstance(e, ast.Name):
            r = self.lookup(module, e.id)
            if r is None:
                return e.id
            if r[0] == "cls":
                return r[1]
            if r[0] == "ext":
                return r[1]
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, module)
            if isinstance(b, str):
                if b in self.modules:
                    r = self.lookup(self.modules[b], e.attr)
                    if r and r[0] in ("cls", "ext"):
                        return r[1]
                return b + "." + e.attr
            return str(b)
        return "?"

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]  # recursion guard
            seqs = []
            for b in c.bases:
                seqs.append(list(self.mro(b)) if isinstance(b, CI) else [b])
            seqs.append(list(c.bases))
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def is_sub(self, c, base):
        """Is class c (CI or ext str) a subclass of base (CI or name)?"""
        if isinstance(c, CI):
            for x in self.mro(c):
                if x is base or (isinstance(base, str) and (
                        (isinstance(x, CI) and x.name == base) or x == base
                        or (isinstance(x, str) and x.split(".")[-1] == base))):
                    return True
            return False
        return c == base

    def find_method(self, c, name, after=None):
        """Find a method by MRO (optionally after class `after`): FI, ('ext', base) or None."""
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        ext = None
        for x in mro:
            if isinstance(x, CI):
                if name in x.methods:
                    return x.methods[name]
                if name in x.assigns:
                    return None
            elif ext is None and x not in ("typing.Generic", "Generic", "object", "contextlib.AbstractContextManager",
                                           "typing.NamedTuple"):
                ext = ("ext", x)
        return ext

    def cls(self, name, must=True):
        for c in self.classes:
            if c.name == name and c.parent is None:
                return c
        if must:
            raise ModelError("class %s vanished" % name)
        return None

    def cls_in(self, module, name):
        m = self.modules.get(module)
        if m is not None:
            r = self.lookup(m, name)
            if r and r[0] == "cls":
                return r[1]
        raise ModelError("class %s.%s vanished" % (module, name))

    def method(self, cls, name):
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = self.find_method(c, name)
        if not isinstance(f, FI):
            raise ModelError("method %s.%s vanished" % (c.name, name))
        return f

    def func(self, module, name):
        m = self.modules.get(module)
        if m is None:
            raise ModelError("module %s vanished" % module)
        r = self.lookup(m, name)
        if not r or r[0] != "def":
            raise ModelError("function %s:%s vanished" % (module, name))
        return r[1]

    # -- types:  ('c', CI) ('x', dotted) ('dict',k,v) ('list',e) ('tuple',(..)) ('type',CI) None
    def ann_type(self, e, module, _d=0):
        if e is None or _d > 8:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.ann_type(ast.parse(e.value, mode="eval").body, module, _d + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.ann_type(e.left, module, _d + 1) or self.ann_type(e.right, module, _d + 1)
        if isinstance(e, ast.Subscript):
            head = self.resolve_expr(e.value, module)
            h = head.split(".")[-1] if isinstance(head, str) else None
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if isinstance(head, CI):
                return ("c", head)
            if h in ("Optional", "Final", "ClassVar", "Opt"):
                return self.ann_type(args[0], module, _d + 1)
            if h == "Union":
                for a in args:
                    t = self.ann_type(a, module, _d + 1)
                    if t:
                        return t
                return None
            if h in ("Dict", "dict", "DefaultDict", "defaultdict", "Mapping", "MutableMapping", "OrderedDict"):
                return ("dict", self.ann_type(args[0], module, _d + 1),
                        self.ann_type(args[1], module, _d + 1) if len(args) > 1 else None)
            if h in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "FrozenSet", "Deque", "deque"):
                return ("list", self.ann_type(args[0], module, _d + 1))
            if h in ("Tuple", "tuple"):
                return ("tuple", tuple(self.ann_type(a, module, _d + 1) for a in args))
            if h in ("Type", "type"):
                t = self.ann_type(args[0], module, _d + 1)
                return ("type", t[1]) if t and t[0] == "c" else None
            if h == "Callable":
                return ("x", "callable")
            return ("x", head) if isinstance(head, str) and "." in head else None
        if isinstance(e, (ast.Name, ast.Attribute)):
            nm = None
            if isinstance(e, ast.Name):
                r = self.lookup(module, e.id)
                if r and r[0] == "var":
                    # a type alias
                    v = self._module_assign(r[1], r[2])
                    if v is not None and isinstance(v, (ast.Subscript, ast.Name, ast.Attribute)):
                        return self.ann_type(v, r[1], _d + 1)
                    return None
                nm = e.id
            r = self.resolve_expr(e, module)
            if isinstance(r, CI):
                return ("c", r)
            if nm in ("int", "str", "bool", "float", "bytes", "bytearray", "dict", "list", "tuple", "set"):
                return {"dict": ("dict", None, None), "list": ("list", None), "set": ("list", None),
                        "tuple": ("tuple", ())}.get(nm, ("x", nm))
            last = r.split(".")[-1]
            if last in ("Any", "None"):
                return None
            if last in ("Dict", "DefaultDict"):
                return ("dict", None, None)
            if last in ("List", "Sequence"):
                return ("list", None)
            if last in ("Callable",):
                return ("x", "callable")
            return ("x", CANON.get(r, r)) if "." in r else None
        return None

    def ret_type(self, fi, ci=None):
        """Result type of a function; a type variable is bound through the receiver class's subscripted base."""
        e = getattr(fi.node, "returns", None)
        t = self.ann_type(e, fi.module)
        if t is not None or e is None or fi.cls is None:
            return t
        while isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == "Optional":
            e = e.slice
        if not isinstance(e, ast.Name) or ci is None:
            return None
        v = self._module_assign(fi.module, e.id)
        if not (isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and
                (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) == "TypeVar"):
            return None
        for c in self.mro(ci):
            if not isinstance(c, CI):
                continue
            for b in c.node.bases:
                if isinstance(b, ast.Subscript) and self.resolve_expr(b.value, c.module) is fi.cls and not isinstance(b.slice, ast.Tuple):
                    return self.ann_type(b.slice, c.module)
        return None

    def _module_assign(self, m, name):
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return n.value
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return n.value
        return None

    def _attrs(self, c):
        """attr -> list of (FI, annotation, value expr) assigned as self.<attr> in c's own methods."""
        if c._attrs is None:
            c._attrs = {}
            for f in c.methods.values():
                if not f.params:
                    continue
                me = f.params[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign):
                        ts, ann = [n.target], n.annotation
                    elif isinstance(n, ast.Assign):
                        ts, ann = n.targets, None
                    else:
                        continue
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            c._attrs.setdefault(t.attr, []).append((f, ann, n.value))
        return c._attrs

    def attr_type(self, c, attr):
        for x in self.mro(c):
            if not isinstance(x, CI):
                continue
            if attr in x.anns:
                return self.ann_type(x.anns[attr], x.module)
            lst = self._attrs(x).get(attr)
            if lst:
                for f, ann, val in lst:
                    if ann is not None:
                        t = self.ann_type(ann, f.module)
                        if t:
                            return t
                if (x, attr) in self._busy:
                    return None
                self._busy.add((x, attr))
                try:
                    for f, ann, val in lst:
                        t = self.expr_type(val, f)
                        if t:
                            return t
                finally:
                    self._busy.discard((x, attr))
                return None
        return None

    def param_type(self, f, name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return self.ann_type(x.annotation, f.module)
        return None

    def expr_type(self, e, f, _d=0):
        """Cheap static type of an expression inside function f (flow-insensitive)."""
        if e is None or _d > 6:
            return None
        if isinstance(e, ast.Constant):
            return ("x", type(e.value).__name__) if e.value is not None else None
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.locals[0]:
                    t = self.param_type(g, e.id)
                    if t:
                        return t
                    if g.cls is not None and g.params and e.id == g.params[0] and not g.is_static:
                        return ("c", g.cls)
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                            t = self.ann_type(n.annotation, g.module)
                            if t:
                                return t
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                            t = self.expr_type(n.value, g, _d + 1)
                            if t:
                                return t
                    return None
                g = g.parent
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id in ("cast",) and len(e.args) == 2:
                return self.ann_type(e.args[0], f.module)
            if isinstance(fn, ast.Name):
                r = self.lookup(f.module, fn.id)
                if r and r[0] == "cls":
                    return ("c", r[1])
                if r and r[0] == "def":
                    return self.ann_type(r[1].node.returns, r[1].module)
                if r and r[0] == "ext":
                    return ext_ret(r[1])
                if r is None and fn.id in ("dict", "list", "set", "int", "str", "float", "bytearray", "bytes"):
                    return {"dict": ("dict", None, None), "list": ("list", None), "set": ("list", None)}.get(fn.id, ("x", fn.id))
                return None
            if isinstance(fn, ast.Attribute):
                d = self.resolve_expr(fn, f.module) if _is_dotted(fn) else None
                root = fn
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(d, CI):
                    return ("c", d)
                if isinstance(d, str) and isinstance(root, ast.Name) and self.lookup(f.module, root.id):
                    return ext_ret(d)
                bt = self.expr_type(fn.value, f, _d + 1)
                if bt and bt[0] == "c":
                    mth = self.find_method(bt[1], fn.attr)
                    if isinstance(mth, FI):
                        return self.ret_type(mth, bt[1])
            return None
        if isinstance(e, ast.Attribute):
            bt = self.expr_type(e.value, f, _d + 1)
            if bt and bt[0] == "c":
                mth = self.find_method(bt[1], e.attr)
                if isinstance(mth, FI) and mth.is_property:
                    return self.ann_type(mth.node.returns, mth.module)
                return self.attr_type(bt[1], e.attr)
            return None
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("dict", None, None)
        if isinstance(e, (ast.List, ast.ListComp, ast.Set)):
            return ("list", None)
        if isinstance(e, ast.IfExp):
            return self.expr_type(e.body, f, _d + 1) or self.expr_type(e.orelse, f, _d + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                t = self.expr_type(v, f, _d + 1)
                if t:
                    return t
        return None


CANON = {
    "socket.SocketType": "socket.socket",
    "_thread.RLock": "threading.RLock",
    "builtins.TimeoutError": "TimeoutError",
}


def _is_dotted(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def ext_ret(d):
    """Result type of calling the external dotted name d (constructors keep their own name)."""
    last = d.split(".")[-1]
    if d in ("collections.defaultdict", "typing.DefaultDict"):
        return ("dict", None, None)
    if d == "socket.create_connection":
        return ("x", "socket.socket")
    if last[:1].isupper():
        return ("x", CANON.get(d, d))
    return None
