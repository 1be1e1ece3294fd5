"""
Path-sensitive value-flow walker.

Walks the syntax of one entry point (inlining resolved repository callees up to
a stated bound) and produces, per control-flow path, the ordered list of effects
(calls leaving the analysed scope, attribute/element writes, lock operations,
yields, raises) together with the branch decisions and the origin of every
value.  There is no solver and nothing of the analysed program is executed:
branch decisions are kept as facts about value origins and only compared for
syntactic (normalised) equality.  Loops are unfolded a bounded number of times.
"""
import ast
import builtins

from .model import CI, FI, Module, ext_ret
from .values import (FALSE, NONE, TRUE, V, const, cval, is_const, is_none, mentions, subterms)

LOCK_X = {"threading.RLock", "threading.Lock", "_thread.RLock", "_thread.lock", "threading.Condition"}
LOCK_C = {"OptionalRLock"}
PURE_METHODS = {"lower", "upper", "strip", "encode", "decode", "startswith", "endswith", "format", "join", "split",
                "hex", "rstrip", "lstrip", "replace", "isdigit", "title", "partition", "splitlines"}
PURE_FUNCS = {"len", "int", "str", "float", "bool", "min", "max", "abs", "sum", "round", "repr", "range", "enumerate",
              "zip", "reversed", "sorted", "set", "frozenset", "any", "all", "isinstance", "hasattr", "callable", "id",
              "hash", "issubclass", "bytes", "divmod", "chr", "ord", "type", "iter", "map", "filter", "format", "pow"}
LOG_CALLS = {"info", "warning", "error", "debug", "exception", "critical"}
PURE_EXT = ("math.", "os.path.join", "os.path.basename", "urllib.parse.")
BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
               and issubclass(getattr(builtins, n), BaseException)}
EXT_EXC = {"socket.timeout": "TimeoutError", "timeout": "TimeoutError", "socket.gaierror": "OSError", "gaierror": "OSError",
           "JSONDecodeError": "ValueError", "json.decoder.JSONDecodeError": "ValueError", "json.JSONDecodeError": "ValueError",
           "struct.error": "Exception", "queue.Empty": "Exception", "queue.Full": "Exception", "Empty": "Exception",
           "Full": "Exception", "asyncio.CancelledError": "BaseException", "CancelledError": "BaseException"}


class Budget(Exception):
    pass


class Ev:
    """One effect on a path."""
    __slots__ = ("kind", "name", "fi", "recv", "args", "kw", "val", "node", "at", "locks", "fn", "stack", "facts_n")

    def __init__(self, kind, name=None, fi=None, recv=None, args=(), kw=None, val=None, node=None, at=None, locks=(),
                 fn=None, stack=()):
        self.kind, self.name, self.fi, self.recv, self.args, self.kw = kind, name, fi, recv, args, kw or {}
        self.val, self.node, self.at, self.locks, self.fn, self.stack = val, node, at, locks, fn, stack

    @property
    def qual(self):
        return self.fi.qual if self.fi is not None else None

    @property
    def loc(self):
        return "%s:%d" % (self.at.module.rel, getattr(self.node, "lineno", 0)) if self.at is not None else "?"

    @property
    def where(self):
        return "%s (%s)" % (self.loc, self.at.qual if self.at is not None else "?")

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kw.get(name)
        return None

    @property
    def pol(self):
        return self.kw.get("pol")

    def __repr__(self):
        if self.kind == "assume":
            return "assume %r is %s" % (self.val, self.pol)
        return "%s %s(%s%s)%s @%s" % (self.kind, self.qual or self.name,
                                      "" if self.recv is None else "%r; " % self.recv,
                                      ", ".join(map(repr, self.args)) + "".join(", %s=%r" % x for x in self.kw.items()),
                                      "" if self.val is None else "=%r" % self.val, self.loc)


class St:
    __slots__ = ("store", "facts", "locks", "ev", "n", "frames", "tries", "yh", "pend", "stack", "flags", "nev")

    def __init__(self):
        self.store, self.facts, self.locks, self.ev, self.n = {}, {}, (), None, 0
        self.frames, self.tries, self.yh, self.pend, self.stack, self.flags = {}, (), (), (), (), frozenset()
        self.nev = 0

    def fork(self):
        s = St.__new__(St)
        s.store, s.facts, s.locks, s.ev, s.n = dict(self.store), dict(self.facts), self.locks, self.ev, self.n
        s.frames, s.tries, s.yh, s.pend = dict(self.frames), self.tries, self.yh, self.pend
        s.stack, s.flags, s.nev = self.stack, self.flags, self.nev
        return s

    def emit(self, e):
        self.ev = (self.ev, e)
        self.nev += 1

    def events(self):
        out, c = [], self.ev
        while c is not None:
            out.append(c[1])
            c = c[0]
        out.reverse()
        return out

    def uid(self):
        self.n += 1
        return self.n


class Fr:
    __slots__ = ("fi", "fid", "parent", "module")

    def __init__(self, fi, fid, parent, module):
        self.fi, self.fid, self.parent, self.module = fi, fid, parent, module


class Raised:
    """Marker: expression evaluation raised (exc is V('exc', name, uid))."""
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc


class Path:
    def __init__(self, st, out):
        self.st = st
        self.events = st.events()
        self.kind = "normal" if out is None else out[0]
        self.val = out[1] if out is not None and len(out) > 1 else NONE
        self.facts = st.facts
        self.flags = st.flags

    @property
    def returned(self):
        return self.kind in ("normal", "ret")

    @property
    def raised(self):
        return self.kind == "exc"

    @property
    def exc_name(self):
        return self.val.a[0] if self.kind == "exc" else None

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (not names or e.name in names or e.qual in names)]

    def __repr__(self):
        return "<path %s %r %d events>" % (self.kind, self.val, len(self.events))


def exc_super(prog, name, target):
    """Does exception `name` match handler class `target`?  True/False/None(maybe)."""
    if target in ("BaseException",):
        return True
    if name == "?":
        if target == "Exception":
            return True
        return None
    if name == target:
        return True
    seen = 0
    cur = name
    while seen < 10:
        seen += 1
        b = getattr(builtins, cur.split(".")[-1], None) if cur.split(".")[-1] in BUILTIN_EXC else None
        t = getattr(builtins, target.split(".")[-1], None) if target.split(".")[-1] in BUILTIN_EXC else None
        if cur == target or cur.split(".")[-1] == target.split(".")[-1]:
            return True
        if b is not None:
            if t is not None:
                return issubclass(b, t)
            # builtin raised, external handler class: an ext alias of a builtin?
            a = EXT_EXC.get(target)
            if a in ("TimeoutError", "OSError", "ValueError") and cur in (a,):
                return None
            return False
        if cur in EXT_EXC:
            cur = EXT_EXC[cur]
            continue
        for c in prog.classes:
            if c.name == cur:
                for m in prog.mro(c)[1:]:
                    n = m.name if isinstance(m, CI) else m
                    if n == target or exc_super(prog, n.split(".")[-1], target):
                        return True
                return False
        # unknown external exception class
        return True if target == "Exception" else None
    return None


def unstar(v, i):
    """The element of a comprehension over an unknown collection, for position i."""
    if isinstance(v, tuple):
        return tuple(unstar(x, i) for x in v)
    if not isinstance(v, V):
        return v
    if v.k in ("elem", "key") and v.a[1] == "*":
        return V(v.k, unstar(v.a[0], i), i, ty=v.ty)
    if not any(isinstance(x, (V, tuple)) for x in v.a):
        return v
    return V(v.k, *[unstar(x, i) for x in v.a], ty=v.ty)


def fstr(parts):
    """A text put together from parts, adjacent known parts joined."""
    out = []
    for v in parts:
        for x in v.a if v.k == "fstr" else (v,):
            if is_const(x) and out and is_const(out[-1]):
                out[-1] = const(str(cval(out[-1])) + str(cval(x)))
            elif not (is_const(x) and cval(x) == ""):
                out.append(x)
    return V("fstr", *out)


class Walker:
    def __init__(self, prog, opaque=(), inline=None, max_depth=8, loop=(0, 1, 2), while_max=3, max_paths=6000,
                 raises=None, assert_fork=True, types=None, max_steps=400000, track_reads=False, inline_pred=None,
                 try_raise=True, dict_errors=False, keep_cut=False, volatile=()):
        self.filters = {}
        self.volatile = frozenset(volatile)   # attributes other threads change: each read is decided anew
        self.keep_cut = keep_cut
        self.p = prog
        self.opaque = set(opaque)
        self.inline_only = set(inline) if inline is not None else None
        self.inline_pred = inline_pred
        self.max_depth, self.loop, self.while_max, self.max_paths = max_depth, loop, while_max, max_paths
        self.raises = raises          # callable(Ev) -> list of exception names an opaque call may raise
        self.assert_fork = assert_fork
        self.types = dict(types or {})   # (class name, attr) -> type override
        self.max_steps, self.steps = max_steps, 0
        self.track_reads = track_reads
        self.try_raise = try_raise
        self.dict_errors = dict_errors
        self.notes = {}
        self.gstore = {}
        self.gvars = {}
        self.executing = set()
        self.truncated = False
        self.visited = set()

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    # ------------------------------------------------------------------ entry
    def entry(self, fi, args=None, recv=None, st=None, closure=None, kw=None):
        """Walk function `fi` as an entry point; returns [Path]."""
        st = st.fork() if st is not None else St()
        self.steps = 0
        bound = {}
        ps = fi.params
        args = list(args or [])
        if fi.cls is not None and not fi.is_static and ps and fi.parent is None:
            me = recv
            if me is None:
                me = V("sym", "self", ty=("type", fi.cls) if fi.is_classmethod else ("c", fi.cls))
            args = [me] + args
        for n, a in zip(ps, args):
            bound[n] = a
        bound.update(kw or {})
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in bound:
                bound[x.arg] = V("sym", x.arg, ty=self.types.get((fi.name, x.arg)) or self.p.param_type(fi, x.arg))
        if a.vararg and a.vararg.arg not in bound:
            bound[a.vararg.arg] = V("sym", "*" + a.vararg.arg)
        if a.kwarg and a.kwarg.arg not in bound:
            named = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            extra = {k: v for k, v in (kw or {}).items() if k not in named and k != "**"}
            if extra or "**" in bound:
                bound[a.kwarg.arg] = self.new_dict(st, [(const(k), v) for k, v in extra.items()], complete="**" in bound)
            else:
                bound[a.kwarg.arg] = V("sym", "**" + a.kwarg.arg, ty=("dict", None, None))
        bound.pop("**", None)
        paths, res = [], []
        bounds = self.while_max, self.loop
        tries = [bounds]
        for t in ((2, tuple(x for x in self.loop if x < 2) or self.loop), (1, tuple(x for x in self.loop if x < 2) or self.loop)):
            t = (min(t[0], self.while_max), t[1])
            if t not in tries:
                tries.append(t)
        for k, (self.while_max, self.loop) in enumerate(tries):
            self.steps = 0
            try:
                res = self.run(fi, dict(bound), st.fork(), closure, entry=True)
                if k:
                    self.note("loops of %s cut to %d passes" % (fi.qual, self.while_max))
                break
            except Budget:
                if k == len(tries) - 1:
                    self.truncated = True
                    self.note("path budget exhausted in %s" % fi.qual)
            except RecursionError:
                self.truncated = True
                self.note("recursion limit in %s" % fi.qual)
                break
        self.while_max, self.loop = bounds
        for s, out in res:
            paths.append(Path(s, out))
        return paths

    def call_value(self, fv, args=(), st=None, kw=None):
        """Walk a call of function value fv (func/bound) from state st; returns [Path]."""
        st = st.fork() if st is not None else St()
        st.ev, st.nev = None, 0
        if fv.k == "bound":
            fi = fv.a[0]
            return self.entry(fi, list(args), recv=fv.a[1], st=st, kw=kw)
        if fv.k == "func":
            fi, pfid = fv.a
            return self.entry(fi, list(args), st=st, closure=pfid, kw=kw)
        raise ValueError("not a function value: %r" % (fv,))

    def closure_state(self, fi):
        """State with synthetic frames for the functions enclosing `fi`; returns (St, parent frame id)."""
        st = St()
        chain, f = [], fi.parent
        while f is not None:
            chain.append(f)
            f = f.parent
        pid, me = None, None
        for f in reversed(chain):
            fid = st.uid()
            st.frames[fid] = (f, pid)
            names = set(f.params) | set(f.locals[0])
            for n in names:
                if f.cls is not None and f.params and n == f.params[0] and not f.is_static and f.parent is None:
                    v = V("sym", "self", ty=("type", f.cls) if f.is_classmethod else ("c", f.cls))
                elif n in f.params:
                    v = V("sym", n, ty=self.types.get((f.name, n)) or self.p.param_type(f, n))
                else:
                    g = f.nested.get(n)
                    v = V("func", g, fid) if g is not None else V("sym", n, ty=self.local_type(f, n))
                st.store[("L", fid, n)] = v
            pid = fid
        return st, pid

    def eval_in(self, e, fi):
        """Values of expression e evaluated on entry of function fi: [(state, value)]."""
        st, pid = self.closure_state(fi)
        fid = st.uid()
        st.frames[fid] = (fi, pid)
        for n in fi.params:
            st.store[("L", fid, n)] = V("sym", n, ty=self.types.get((fi.name, n)) or self.p.param_type(fi, n))
        return [(x, v) for x, v in self.ev(e, st, Fr(fi, fid, pid, fi.module)) if not isinstance(v, Raised)]

    def local_type(self, f, n):
        out = None
        for x in ast.walk(f.node):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                return self.p.ann_type(x.annotation, f.module)
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets):
                out = out or self.p.expr_type(x.value, f)
        return out

    def entry_any(self, fi, **kw):
        """entry() for methods, functions and nested functions alike."""
        if fi.parent is None:
            return self.entry(fi, **kw)
        st, pid = self.closure_state(fi)
        return self.entry(fi, st=st, closure=pid, **kw)

    def run(self, fi, bound, st, closure, entry=False):
        """Execute fi's body; returns [(st, out)] with out None|('ret',v)|('exc',V)."""
        fid = st.uid()
        st.frames[fid] = (fi, closure)
        fr = Fr(fi, fid, closure, fi.module)
        self.visited.add(fi)
        for n, v in bound.items():
            st.store[("L", fid, n)] = v
        old = st.stack
        st.stack = old + (fi,)
        if fi.is_lambda:
            res = []
            for s, v in self.ev(fi.node.body, st, fr):
                res.append((s, ("exc", v.exc) if isinstance(v, Raised) else ("ret", v)))
        else:
            res = self.block(fi.node.body, st, fr)
        for s, out in res:
            s.stack = old
        return res

    def construct(self, ci, args=None, kw=None, keep=None):
        """Walk ci.__init__ with symbolic arguments; returns [(self V, St)] for normal completions."""
        me = V("sym", "self", ty=("c", ci))
        init = self.p.find_method(ci, "__init__")
        st = St()
        if not isinstance(init, FI):
            return [(me, st)]
        out = []
        for p in self.entry(init, args or [], recv=me, st=st, kw=kw):
            if p.returned:
                out.append((me, p.st))
        return out

    # ------------------------------------------------------------------ types
    def ty(self, v, st):
        t = st.store.get(("T", v)) if st is not None else None
        if t:
            return t
        if v.ty is not None:
            return v.ty
        k, a = v.k, v.a
        if k == "const":
            return ("x", a[0]) if a[1] is not None else None
        if k == "enum":
            return ("c", a[0])
        if k == "obj":
            d = a[0]
            if d == "list" or d == "set":
                return ("list", None)
            if d == "dict":
                return ("dict", None, None)
            if isinstance(d, CI):
                return ("c", d)
            return ("x", d)
        if k == "fstr":
            return ("x", "str")
        if k == "attr":
            bt = self.ty(a[0], st)
            if bt and bt[0] in ("c",):
                for m in self.p.mro(bt[1]):
                    if isinstance(m, CI) and (m.name, a[1]) in self.types:
                        return self.types[(m.name, a[1])]
                return self.p.attr_type(bt[1], a[1])
            return None
        if k == "item":
            bt = self.ty(a[0], st)
            if bt:
                if bt[0] == "dict":
                    return bt[2]
                if bt[0] == "list":
                    return bt[1]
                if bt[0] == "tuple" and bt[1] and is_const(a[1]) and isinstance(cval(a[1]), int):
                    i = cval(a[1])
                    return bt[1][i] if -len(bt[1]) <= i < len(bt[1]) else None
            return None
        if k == "key":
            bt = self.ty(a[0], st)
            return bt[1] if bt and bt[0] == "dict" else None
        if k == "elem":
            return self.elem_type(a[0], st)
        if k == "app":
            f = a[0]
            if f in ("list", "sorted", "reversed", "copy", "tuple", "set", "slice"):
                t = self.ty(a[1], st) if len(a) > 1 else None
                if f == "copy" or f == "slice":
                    return t
                return ("list", self.elem_type(a[1], st)) if len(a) > 1 else ("list", None)
            if f in ("len", "int", "abs"):
                return ("x", "int")
            if f in ("values", "keys", "items"):
                return ("list", self.elem_type(v, st))
            if f in ("str", "m:lower", "m:upper", "m:strip", "m:format", "m:join", "m:decode"):
                return ("x", "str")
            if f == "m:encode":
                return ("x", "bytes")
        if k == "tup":
            return ("tuple", tuple(self.ty(x, st) for x in a))
        if k == "bin":
            return self.ty(a[1], st)
        return None

    def elem_type(self, it, st):
        if it.k == "app":
            if it.a[0] == "values":
                t = self.ty(it.a[1], st)
                return t[2] if t and t[0] == "dict" else None
            if it.a[0] == "items":
                t = self.ty(it.a[1], st)
                return ("tuple", (t[1], t[2])) if t and t[0] == "dict" else None
            if it.a[0] == "keys":
                t = self.ty(it.a[1], st)
                return t[1] if t and t[0] == "dict" else None
        t = self.ty(it, st)
        if t and t[0] == "list":
            return t[1]
        if t and t[0] == "dict":
            return t[1]
        return None

    def is_lock(self, v, st):
        t = self.ty(v, st)
        if not t:
            return False
        return (t[0] == "x" and t[1] in LOCK_X) or (t[0] == "c" and t[1].name in LOCK_C)

    def iscls(self, v, st, name):
        t = self.ty(v, st)
        return bool(t and t[0] == "c" and self.p.is_sub(t[1], name))

    # ------------------------------------------------------------------ facts
    def norm(self, v):
        """Normalise a condition to (term, polarity)."""
        pol = True
        while True:
            if v.k == "not":
                v, pol = v.a[0], not pol
                continue
            if v.k == "app" and v.a[0] == "bool" and len(v.a) == 2:
                v = v.a[1]
                continue
            if v.k == "cmp":
                op, a, b = v.a
                la = a.k == "app" and a.a[0] == "len"
                lb = b.k == "app" and b.a[0] == "len"
                if op == "==":
                    if la and is_const(b, 0):
                        v, pol = self.cont(a.a[1]), not pol
                        continue
                    if lb and is_const(a, 0):
                        v, pol = self.cont(b.a[1]), not pol
                        continue
                    if is_none(b) or is_none(a):
                        x = a if is_none(b) else b
                        return V("cmp", "is", x, NONE), pol
                    if is_const(b, True, False) and a.k in ("cmp", "not"):
                        v, pol = a, (pol if b.a[1] else not pol)
                        continue
                    if repr_key(b) < repr_key(a):
                        return V("cmp", "==", b, a), pol
                if op == "<":
                    if lb and is_const(a, 0):
                        v = self.cont(b.a[1])
                        continue
                    if la and is_const(b, 1):
                        v, pol = self.cont(a.a[1]), not pol
                        continue
                if op == "is":
                    if is_none(a) and not is_none(b):
                        return V("cmp", "is", b, a), pol
                    if is_const(b, True, False) and a.k in ("cmp", "not"):
                        v, pol = a, (pol if b.a[1] else not pol)
                        continue
                    if a.k == "enum" or b.k == "enum":
                        v = V("cmp", "==", a, b)
                        continue
            if v.k in ("app",) and v.a[0] in ("len", "list", "items", "keys", "values", "copy", "tuple", "sorted", "set", "reversed"):
                if len(v.a) == 2:
                    v = self.cont(v.a[1])
                    continue
            return v, pol

    def cont(self, v):
        while v.k == "app" and v.a[0] in ("items", "keys", "values", "list", "copy", "tuple", "sorted", "set", "reversed", "enumerate", "iter") and len(v.a) >= 2:
            v = v.a[1]
        return v

    def truth(self, v, st):
        v, pol = self.norm(v)
        r = self._truth(v, st)
        return None if r is None else (r == pol)

    def _truth(self, v, st):
        k, a = v.k, v.a
        if k == "const":
            return bool(a[1])
        if k in ("func", "bound", "class", "ext", "mod"):
            return True
        if k == "tup":
            return len(a) > 0
        if k == "obj":
            if a[0] in ("list", "set"):
                c = self.rd(st, ("C", v))
                if c is not None:
                    return len(c) > 0
                return st.facts.get(v)
            if a[0] == "dict":
                ks = self.rd(st, ("K", v))
                if ks:
                    return True
                if ks is not None and self.rd(st, ("KC", v)):
                    return False
                return st.facts.get(v)
            if isinstance(a[0], CI):
                if not any(isinstance(m, CI) and ("__bool__" in m.methods or "__len__" in m.methods) for m in self.p.mro(a[0])):
                    return True
            return st.facts.get(v)
        if k == "fstr":
            if any(is_const(x) and cval(x) for x in a):
                return True
        if k == "enum":
            x = self.enum_value(v)
            if x is not None and is_const(x):
                return bool(cval(x))
        f = st.facts.get(v)
        if f is not None:
            return f
        if k == "cmp":
            op, x, y = a
            if op == "is":
                if is_none(y):
                    if is_none(x):
                        return True
                    if x.k in ("const", "obj", "func", "bound", "class", "tup", "enum", "fstr", "bin", "cmp", "mod", "ext"):
                        return False
                    if x.k == "call" and isinstance(x.a[0], str) and x.a[0].split(".")[-1][:1].isupper():
                        return False         # an object just constructed
                    nx, np = self.norm(x)
                    t = st.facts.get(nx)
                    if t is not None and (t == np):
                        return False
                    if x.k == "app" and x.a[0] not in ("getattr", "slice"):
                        return False
                if x == y:
                    return True
                if x.k in ("obj", "func", "enum", "class") and y.k in ("obj", "func", "enum", "class", "const"):
                    return False
                return None
            if op == "==":
                if x == y:
                    return True
                cx, cy = self.is_value(x), self.is_value(y)
                if cx and cy:
                    if x.k == "const" and y.k == "const":
                        return x.a[1] == y.a[1]
                    if x.k == "enum" and y.k == "enum":
                        return x == y
                    if x.k == "class" and y.k == "class":
                        return x == y
                    ex = self.enum_value(x) if x.k == "enum" else x
                    ey = self.enum_value(y) if y.k == "enum" else y
                    if ex is not None and ey is not None and is_const(ex) and is_const(ey):
                        return ex.a[1] == ey.a[1]
                    return None
                for s, o in ((x, y), (y, x)):
                    if self.is_value(o):
                        for f2, val in st.facts.items():
                            if val and f2.k == "cmp" and f2.a[0] == "==":
                                if f2.a[1] == s and self.is_value(f2.a[2]) and f2.a[2] != o:
                                    return False
                                if f2.a[2] == s and self.is_value(f2.a[1]) and f2.a[1] != o:
                                    return False
                        if is_const(o) and st.facts.get(V("cmp", "is", s, NONE)) is True:
                            return False
                return None
            if op == "<":
                if x.k == "const" and y.k == "const":
                    try:
                        return x.a[1] < y.a[1]
                    except TypeError:
                        return None
                if x == y:
                    return False
                r = st.facts.get(V("cmp", "<", y, x))
                if r:
                    return False
                e = st.facts.get(V("cmp", "==", *sorted((x, y), key=repr_key)))
                if e:
                    return False
                return None
            if op == "in":
                return self.contains(x, y, st)
        if k == "app" and a[0] == "isinstance" and len(a) == 3:
            t = self.ty(a[1], st)
            exact = a[1].k in ("obj", "const", "tup", "fstr", "enum")
            tg = a[2]
            if is_const(a[1]) and tg.k == "ext" and tg.a[0] in _BUILTIN:
                return isinstance(cval(a[1]), _BUILTIN[tg.a[0]])
            if tg.k == "class" and t and t[0] == "c":
                if self.p.is_sub(t[1], tg.a[0]):
                    return True
                return False if exact else None
            if tg.k == "ext" and exact and t:
                n = {"dict": "dict", "list": "list", "tuple": "tuple"}.get(t[0], t[1] if t[0] == "x" else None)
                if n and tg.a[0] in ("dict", "list", "str", "int", "float", "bool", "tuple"):
                    if n == tg.a[0] or (n, tg.a[0]) == ("bool", "int"):
                        return True
                    return False
        # implied by "is None" fact
        n = st.facts.get(V("cmp", "is", v, NONE))
        if n is True:
            return False
        return None

    def is_value(self, v):
        return v.k in ("const", "enum", "class")

    def contains(self, x, y, st):
        if y.k == "obj" and y.a[0] == "dict":
            ks = self.rd(st, ("K", y)) or ()
            if x in ks:
                return True
            if self.rd(st, ("KC", y)):
                if not ks:
                    return False
                if self.is_value(x) and all(self.is_value(q) for q in ks):
                    return False
        if y.k == "obj" and y.a[0] in ("list", "set"):
            c = self.rd(st, ("C", y))
            if c is not None:
                if x in c:
                    return True
                if not c:
                    return False
                if self.is_value(x) and all(self.is_value(q) for q in c):
                    return False
        if y.k == "tup":
            if x in y.a:
                return True
            if self.is_value(x) and all(self.is_value(q) for q in y.a):
                return False
        if y.k == "const" and x.k == "const" and isinstance(y.a[1], str) and isinstance(x.a[1], str):
            return x.a[1] in y.a[1]
        return None

    def assume(self, st, v, pol):
        """Fork st with condition v == pol (None when contradictory)."""
        v, p = self.norm(v)
        pol = pol == p
        t = self._truth(v, st)
        if t is not None:
            return st if t == pol else None
        st = st.fork()
        st.facts[v] = pol
        st.emit(Ev("assume", val=v, kw={"pol": pol}, locks=st.locks, stack=st.stack))
        if v.k == "app" and v.a[0] == "isinstance" and pol and len(v.a) == 3 and v.a[2].k == "class":
            cur = self.ty(v.a[1], st)
            if not (cur and cur[0] == "c" and self.p.is_sub(cur[1], v.a[2].a[0])):
                st.store[("T", v.a[1])] = ("c", v.a[2].a[0])
        if v.k == "app" and v.a[0] == "isinstance" and pol and v.a[2].k == "ext" and v.a[2].a[0] in ("dict", "list"):
            if not self.ty(v.a[1], st):
                st.store[("T", v.a[1])] = ("dict", None, None) if v.a[2].a[0] == "dict" else ("list", None)
        if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol:
            n, np = self.norm(v.a[1])
            st.facts.setdefault(n, not np)
        return st

    def branch(self, st, v):
        """[(st, bool)] for the truth of v."""
        t = self.truth(v, st)
        if t is not None:
            return [(st, t)]
        out = []
        for pol in (True, False):
            s = self.assume(st, v, pol)
            if s is not None:
                out.append((s, pol))
        return out

    # ------------------------------------------------------------------ store
    def rd(self, st, key):
        r = st.store.get(key)
        if r is None:
            r = self.gstore.get(key)
        return r

    def enum_value(self, v):
        ci, m = v.a
        key = ("enumval", ci, m)
        if key in self.gvars:
            return self.gvars[key]
        self.gvars[key] = None
        e = ci.assigns.get(m)
        if e is not None:
            self.gvars[key] = self.const_eval(e, ci.module)
        return self.gvars[key]

    def const_eval(self, e, module):
        """Evaluate a module-level expression; effects land in gstore."""
        st = St()
        st.n = 1000000 + len(self.gvars) * 10000 + len(self.gstore)
        fr = Fr(None, ("mod", module.name), None, module)
        save = self.steps
        try:
            r = self.ev(e, st, fr)
        except Budget:
            return None
        finally:
            self.steps = save
        if len(r) != 1 or isinstance(r[0][1], Raised):
            return None
        for k, v in r[0][0].store.items():
            self.gstore.setdefault(k, v)
        return r[0][1]

    def global_value(self, module, name):
        key = (module.name, name)
        if key in self.gvars:
            return self.gvars[key]
        if module.name in self.executing:
            return V("sym", "%s.%s" % (module.name, name))
        self.exec_module(module)
        return self.gvars.get(key) or V("sym", "%s.%s" % (module.name, name))

    def exec_module(self, module):
        """Constant-propagate a module body (single path) to learn its globals."""
        if module.name in self.executing:
            return
        self.executing.add(module.name)
        st = St()
        st.n = 2000000 + sorted(self.p.modules).index(module.name) * 100000
        fr = Fr(None, ("mod", module.name), None, module)
        save = self.steps, self.max_depth
        body = [s for s in module.tree.body if not isinstance(
            s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        try:
            for s in body:
                r = self.block([s], st, fr)
                r = [x for x in r if x[1] is None]
                if len(r) != 1:
                    for t in ast.walk(s):
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            st.store[("L", fr.fid, t.id)] = V("sym", module.name + "." + t.id)
                    continue
                st = r[0][0]
        except Budget:
            pass
        self.steps, self.max_depth = save
        for k, v in st.store.items():
            if k[0] == "L" and k[1] == fr.fid:
                t = None
                for s in module.tree.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == k[2]:
                        t = self.p.ann_type(s.annotation, module)
                self.gvars[(module.name, k[2])] = v.typed(t) if t and v.ty is None else v
            else:
                self.gstore.setdefault(k, v)
        self.executing.discard(module.name)

    # ------------------------------------------------------------------ blocks
    def tick(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()

    def block(self, stmts, st, fr):
        live = [(st, None)]
        done = []
        for s in stmts:
            nxt = []
            for x, _ in live:
                for y, out in self.stmt(s, x, fr):
                    (nxt if out is None else done).append((y, out))
            live = nxt
            if len(live) + len(done) > self.max_paths:
                raise Budget()
            if not live:
                break
        return done + live

    def raise_(self, st, name, node, fr, val=None):
        e = V("exc", name, st.uid())
        st.emit(Ev("raise", name, val=e, node=node, at=fr.fi, locks=st.locks, stack=st.stack, args=(val,) if val is not None else ()))
        return e

    def stmt(self, s, st, fr):
        self.tick(st)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(s).__name__)
            return [(st, None)]
        return m(s, st, fr)

    def lift(self, res):
        """Turn expression results into statement results, dropping values."""
        return [(s, ("exc", v.exc) if isinstance(v, Raised) else None) for s, v in res]

    def s_Expr(self, s, st, fr):
        return self.lift(self.ev(s.value, st, fr))

    def s_Pass(self, s, st, fr):
        return [(st, None)]

    def s_Global(self, s, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        for al in s.names:
            n = (al.asname or al.name.split(".")[0])
            mod = al.name if al.asname else al.name.split(".")[0]
            st.store[("L", fr.fid, n)] = V("mod", self.p.modules[mod]) if mod in self.p.modules else V("ext", mod)
        return [(st, None)]

    def s_ImportFrom(self, s, st, fr):
        names = {}
        tmp = fr.module
        self.p._do_import  # noqa
        mod = s.module or ""
        for al in s.names:
            n = al.asname or al.name
            if mod in self.p.modules:
                v = self.resolved(self.p.lookup(self.p.modules[mod], al.name))
                if v is None and mod + "." + al.name in self.p.modules:
                    v = V("mod", self.p.modules[mod + "." + al.name])
            else:
                v = V("ext", mod + "." + al.name)
            if v is not None:
                st.store[("L", fr.fid, n)] = v
        return [(st, None)]

    def s_FunctionDef(self, s, st, fr):
        fi = self.p.fi_by_node.get(s)
        if fi is not None:
            self.bind_name(s.name, V("func", fi, fr.fid), st, fr)
        return [(st, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        ci = self.p.ci_by_node.get(s)
        if ci is not None:
            self.bind_name(s.name, V("class", ci), st, fr)
        return [(st, None)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("exc", v.exc) if isinstance(v, Raised) else ("ret", v)) for x, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [(st, ("break",))]

    def s_Continue(self, s, st, fr):
        return [(st, ("cont",))]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.store.get(("CUREXC",))
            if cur is not None:
                e = cur
                st.emit(Ev("raise", e.a[0], val=e, node=s, at=fr.fi, locks=st.locks, stack=st.stack))
                return [(st, ("exc", e))]
            return [(st, ("exc", self.raise_(st, "?", s, fr)))]
        out = []
        for x, v in self.ev(s.exc, st, fr):
            if isinstance(v, Raised):
                out.append((x, ("exc", v.exc)))
                continue
            if v.k == "exc":
                x.emit(Ev("raise", v.a[0], val=v, node=s, at=fr.fi, locks=x.locks, stack=x.stack))
                out.append((x, ("exc", v)))
                continue
            name = "?"
            t = self.ty(v, x)
            if v.k == "class":
                name = v.a[0].name
            elif v.k == "ext":
                name = v.a[0]
            elif t and t[0] == "c":
                name = t[1].name
            elif t and t[0] == "x":
                name = t[1]
            out.append((x, ("exc", self.raise_(x, name, s, fr, v))))
        return out

    def s_Assert(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            if isinstance(b, Raised):
                out.append((x, ("exc", b.exc)))
            elif b:
                out.append((x, None))
            elif self.assert_fork:
                y = x.fork()
                out.append((y, ("exc", self.raise_(y, "AssertionError", s, fr))))
        return out

    def s_Delete(self, s, st, fr):
        live = [(st, None)]
        for t in s.targets:
            nxt = []
            for x, out in live:
                if out is not None:
                    nxt.append((x, out))
                    continue
                if isinstance(t, ast.Name):
                    x.store.pop(("L", fr.fid, t.id), None)
                    nxt.append((x, None))
                elif isinstance(t, ast.Subscript):
                    for y, vs in self.evs([t.value, t.slice], x, fr):
                        if isinstance(vs, Raised):
                            nxt.append((y, ("exc", vs.exc)))
                            continue
                        for z, r in self.del_item(vs[0], vs[1], y, s, fr):
                            nxt.append((z, ("exc", r.exc) if isinstance(r, Raised) else None))
                elif isinstance(t, ast.Attribute):
                    for y, v in self.ev(t.value, x, fr):
                        if isinstance(v, Raised):
                            nxt.append((y, ("exc", v.exc)))
                            continue
                        y.store.pop(("A", v, t.attr), None)
                        y.emit(Ev("delattr", t.attr, recv=v, node=s, at=fr.fi, locks=y.locks, stack=y.stack))
                        nxt.append((y, None))
                else:
                    nxt.append((x, None))
            live = nxt
        return live

    def del_item(self, base, key, st, node, fr, silent=False):
        out = []
        for s2, absent in self.key_absent(base, key, st):
            if absent:
                if absent == "yes":
                    out.append((s2, Raised(self.raise_(s2, "KeyError", node, fr))))
                continue
            s2.store.pop(("I", base, key), None)
            ks = self.rd(s2, ("K", base))
            if ks is not None:
                s2.store[("K", base)] = tuple(x for x in ks if x != key)
            self.freeze(s2, V("cmp", "in", key, base), TRUE)
            s2.facts[V("cmp", "in", key, base)] = False
            s2.emit(Ev("del", recv=base, args=(key,), node=node, at=fr.fi, locks=s2.locks, stack=s2.stack))
            out.append((s2, NONE))
        return out

    def key_absent(self, base, key, st):
        """[(st, False|'yes'|'maybe')]: whether base[key] may raise KeyError (only forked when it matters)."""
        t = self.truth(V("cmp", "in", key, base), st)
        if t is True:
            return [(st, False)]
        if t is False:
            bt = self.ty(base, st)
            if bt and bt[0] == "dict" and not self.rd(st, ("DF", base)):
                return [(st.fork(), "yes")]
            return [(st, False)]
        if self.dict_errors or self.catches(st, ("KeyError", "LookupError", "IndexError")):
            a = self.assume(st, V("cmp", "in", key, base), True)
            b = self.assume(st, V("cmp", "in", key, base), False)
            r = []
            if a is not None:
                r.append((a, False))
            if b is not None:
                r.append((b, "yes"))
            return r
        return [(st, False)]

    def catches(self, st, names):
        for hs in st.tries:
            for h in hs:
                if h in names:
                    return True
        return False

    # assignments
    def bind_name(self, name, v, st, fr):
        f = fr.fi
        fid = fr.fid
        if f is not None and not f.is_lambda:
            loc, nl, gl = f.locals
            if name in gl:
                st.emit(Ev("gwrite", name, val=v, at=f, locks=st.locks, stack=st.stack))
                return
            if name in nl:
                pf = fr.parent
                while pf is not None:
                    pfi, pp = st.frames[pf]
                    if name in pfi.locals[0]:
                        st.store[("L", pf, name)] = v
                        st.emit(Ev("nlwrite", name, val=v, at=f, locks=st.locks, stack=st.stack))
                        return
                    pf = pp
        st.store[("L", fid, name)] = v

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((x, ("exc", v.exc)))
                continue
            live = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, o in live:
                    if o is not None:
                        nxt.append((y, o))
                    else:
                        nxt.extend(self.assign(t, v, y, fr, s))
                live = nxt
            out.extend(live)
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        t = self.p.ann_type(s.annotation, fr.module)
        out = []
        for x, v in self.ev(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((x, ("exc", v.exc)))
                continue
            if t and self.ty(v, x) in (None, ("dict", None, None), ("list", None)) and not is_none(v):
                v = v.typed(t)
            out.extend(self.assign(s.target, v, x, fr, s))
        return out

    def s_AugAssign(self, s, st, fr):
        out = []
        load = _as_load(s.target)
        if isinstance(s.target, ast.Name):
            for x, vs in self.evs([load, s.value], st, fr):
                if isinstance(vs, Raised):
                    out.append((x, ("exc", vs.exc)))
                    continue
                for y, v in self.aug(s.op, vs[0], vs[1], x, s, fr):
                    out.extend(self.assign(s.target, v, y, fr, s, aug=True))
            return out
        sub = [s.target.value] + ([s.target.slice] if isinstance(s.target, ast.Subscript) else [])
        for x, bs in self.evs(sub, st, fr):
            if isinstance(bs, Raised):
                out.append((x, ("exc", bs.exc)))
                continue
            if isinstance(s.target, ast.Attribute):
                cur = self.get_attr(bs[0], s.target.attr, x, fr, s.target)
            else:
                cur = self.get_item(bs[0], bs[1], x, fr, s.target)
            for y, c in cur:
                if isinstance(c, Raised):
                    out.append((y, ("exc", c.exc)))
                    continue
                for z, rhs in self.ev(s.value, y, fr):
                    if isinstance(rhs, Raised):
                        out.append((z, ("exc", rhs.exc)))
                        continue
                    for w, v in self.aug(s.op, c, rhs, z, s, fr):
                        if isinstance(s.target, ast.Attribute):
                            out.extend(self.lift(self.set_attr(bs[0], s.target.attr, v, w, fr, s)))
                        else:
                            self.set_item(bs[0], bs[1], v, w, fr, s)
                            out.append((w, None))
        return out

    def aug(self, op, a, b, st, node, fr):
        o = OPS.get(type(op), "?")
        if o == "+" and a.k == "obj" and a.a[0] == "list":
            c = self.rd(st, ("C", a))
            bi = self.items_of(b, st)
            if c is not None and bi is not None:
                st.store[("C", a)] = c + tuple(bi)
            else:
                st.store[("C", a)] = None
            st.emit(Ev("call", "extend", recv=a, args=(b,), node=node, at=fr.fi, locks=st.locks, stack=st.stack))
            return [(st, a)]
        return [(st, self.binop(o, a, b))]

    def assign(self, t, v, st, fr, node, aug=False):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, fr)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                if isinstance(b, Raised):
                    out.append((x, ("exc", b.exc)))
                    continue
                out.extend(self.lift(self.set_attr(b, t.attr, v, x, fr, node)))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raised):
                    out.append((x, ("exc", vs.exc)))
                    continue
                self.set_item(vs[0], vs[1], v, x, fr, node)
                out.append((x, None))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            vals = None
            if not star:
                vals = self.unpack(v, n, st)
            live = [(st, None)]
            for i, e in enumerate(t.elts):
                nxt = []
                for x, o in live:
                    if o is not None:
                        nxt.append((x, o))
                        continue
                    if isinstance(e, ast.Starred):
                        nxt.extend(self.assign(e.value, V("app", "rest", v, const(i)), x, fr, node))
                    else:
                        iv = vals[i] if vals is not None else self.index(v, const(i), x)
                        nxt.extend(self.assign(e, iv, x, fr, node))
                live = nxt
            return live
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, node)
        return [(st, None)]

    def unpack(self, v, n, st):
        if v.k == "tup" and len(v.a) == n:
            return list(v.a)
        if v.k == "obj" and v.a[0] == "list":
            c = self.rd(st, ("C", v))
            if c is not None and len(c) == n:
                return list(c)
        if v.k == "elem" and v.a[0].k == "app" and v.a[0].a[0] == "items" and n == 2:
            d = v.a[0].a[1]
            key = V("key", d, v.a[1])
            return [key, self.rd(st, ("I", d, key)) or V("item", d, key)]
        if v.k == "elem" and v.a[0].k == "app" and v.a[0].a[0] == "enumerate" and n == 2:
            return [V("app", "idx", v.a[0].a[1], v.a[1]) if not isinstance(v.a[1], int) else const(v.a[1]), self.elem(v.a[0].a[1], v.a[1], st)]
        if v.k == "obj" and isinstance(v.a[0], CI) and len(self.nt_fields(v.a[0])) == n:
            return [self.rd(st, ("A", v, f)) or V("attr", v, f) for f in self.nt_fields(v.a[0])]
        return [self.index(v, const(i), st) for i in range(n)]

    def nt_fields(self, ci):
        for m in self.p.mro(ci):
            if m in ("typing.NamedTuple", "NamedTuple"):
                out = []
                for c in reversed([x for x in self.p.mro(ci) if isinstance(x, CI)]):
                    out += [a for a in c.anns if a not in out]
                return out
        return []

    def index(self, v, key, st):
        """Pure v[key] for known structure."""
        if key.k == "const" and isinstance(key.a[1], int) and not isinstance(key.a[1], bool):
            i = key.a[1]
            if v.k == "tup" and -len(v.a) <= i < len(v.a):
                return v.a[i]
            if v.k == "obj" and v.a[0] == "list":
                c = self.rd(st, ("C", v))
                if c is not None and -len(c) <= i < len(c):
                    return c[i]
            t = self.ty(v, st)
            if t and t[0] == "c":
                f = self.nt_fields(t[1])
                if f and -len(f) <= i < len(f):
                    return self.rd(st, ("A", v, f[i])) or V("attr", v, f[i])
            if v.k == "elem" and v.a[0].k == "app" and v.a[0].a[0] == "items" and i in (0, 1):
                return self.unpack(v, 2, st)[i]
        r = self.rd(st, ("I", v, key))
        if r is not None:
            return r
        return V("item", v, key)

    def set_attr(self, base, attr, v, st, fr, node):
        t = self.ty(base, st)
        if t and t[0] == "c":
            for m in self.p.mro(t[1]):
                if isinstance(m, CI) and attr in m.methods:
                    pass
        st.store[("A", base, attr)] = v
        self.kill(st, V("attr", base, attr))
        st.emit(Ev("write", attr, recv=base, val=v, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
        return [(st, NONE)]

    def kill(self, st, term):
        dead = [f for f in st.facts if mentions(f, term)]
        for f in dead:
            del st.facts[f]
        if any(True for k in st.store if k[0] == "T" and k[1] == term):
            st.store.pop(("T", term), None)

    def freeze(self, st, f, val):
        """Variables holding the value of the condition `f`, which is about to change, keep the value it had."""
        for k, v in list(st.store.items()):
            if k[0] == "L" and isinstance(v, V):
                if v == f:
                    st.store[k] = val
                elif v.k == "not" and v.a[0] == f:
                    st.store[k] = const(not cval(val)) if is_const(val) else V("not", val)

    def set_item(self, base, key, v, st, fr, node):
        st.store[("I", base, key)] = v
        if base.k == "obj" and base.a[0] == "dict":
            ks = self.rd(st, ("K", base)) or ()
            if key not in ks:
                st.store[("K", base)] = ks + (key,)
        elif base.k == "obj" and base.a[0] == "list":
            c = self.rd(st, ("C", base))
            if c is not None:
                i = cval(key)
                if isinstance(i, int) and -len(c) <= i < len(c):
                    c = list(c)
                    c[i] = v
                    st.store[("C", base)] = tuple(c)
                else:
                    st.store[("C", base)] = None
        self.kill(st, V("item", base, key))
        st.facts.pop(base, None)
        f = V("cmp", "in", key, base)
        known = self._truth(f, st)
        if known is not True:
            self.freeze(st, f, const(False) if known is False else V("app", "was", f, const(st.nev)))
        st.facts.pop(f, None)
        if self._truth(f, st) is None:
            st.facts[f] = True
        st.emit(Ev("store", recv=base, args=(key,), val=v, node=node, at=fr.fi, locks=st.locks, stack=st.stack))

    # control flow
    def s_If(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            if isinstance(b, Raised):
                out.append((x, ("exc", b.exc)))
            else:
                out.extend(self.block(s.body if b else s.orelse, x, fr))
        return out

    def s_While(self, s, st, fr):
        out = []
        live = [st]
        it = 0
        while live and it <= self.while_max:
            nxt = []
            for x in live:
                before = set(x.facts)
                for y, b in self.cond(s.test, x, fr):
                    if isinstance(b, Raised):
                        out.append((y, ("exc", b.exc)))
                        continue
                    if not b:
                        out.extend(self.block(s.orelse, y, fr) if s.orelse else [(y, None)])
                        continue
                    if it == self.while_max:
                        if self.keep_cut:
                            out.append((y, None))  # keep what an endless loop does, and what follows it
                        continue  # unfolding bound: path cut
                    added = [f for f in y.facts if f not in before and _volatile(f)]
                    for z, o in self.block(s.body, y, fr):
                        if o is None or o[0] == "cont":
                            for f in added:
                                z.facts.pop(f, None)
                            if "loop" not in z.flags:
                                z.flags = z.flags | {"loop"}
                            nxt.append(z)
                        elif o[0] == "break":
                            out.append((z, None))
                        else:
                            out.append((z, o))
                    if len(nxt) + len(out) > self.max_paths:
                        raise Budget()
            live = nxt
            it += 1
        return out

    def s_For(self, s, st, fr):
        out = []
        for x, itv in self.ev(s.iter, st, fr):
            if isinstance(itv, Raised):
                out.append((x, ("exc", itv.exc)))
                continue
            out.extend(self.for_over(s, itv, x, fr))
        return out

    s_AsyncFor = s_For

    def for_over(self, s, itv, st, fr):
        out = []
        if itv.k == "app" and itv.a[0] == "filter" and len(itv.a) == 3:
            self.filters[id(s)] = itv.a[1]
            itv = itv.a[2]
        else:
            self.filters.pop(id(s), None)
        items = self.items_of(itv, st)
        if items is not None:
            live = [st]
            for i, e in enumerate(items):
                live = self.iterate(s, e, live, fr, out, itv)
            for y in live:
                out.extend(self.block(s.orelse, y, fr) if s.orelse else [(y, None)])
            return out
        c = self.cont(itv)
        known = self.truth(c, st) if not (itv.k == "app" and itv.a[0] == "range") else None
        rng = itv.k == "app" and itv.a[0] == "range"
        live = [st]
        for i in range(max(self.loop) + 1):
            # exit after i iterations
            if i in self.loop:
                for y in live:
                    z = y.fork()
                    if i == 0:
                        if known is True:
                            continue
                        if known is None:
                            z.facts[V("app", "ranged", itv) if rng else c] = False
                        z.flags = z.flags | {"loop0"}
                    elif i == 1:
                        z.facts[V("app", "more", c)] = False
                    out.extend(self.block(s.orelse, z, fr) if s.orelse else [(z, None)])
            if i == max(self.loop) or known is False:
                break
            nxt = []
            for y in live:
                z = y.fork()
                if i == 0:
                    if known is None:
                        z.facts[V("app", "ranged", itv) if rng else c] = True
                else:
                    z.facts[V("app", "more", c)] = True
                z.flags = z.flags | {"loop"}
                e = self.elem(itv, i, z)
                nxt.extend(self.iterate(s, e, [z], fr, out, itv))
            live = nxt
            if len(live) + len(out) > self.max_paths:
                raise Budget()
        return out

    def iterate(self, s, e, live, fr, out, src):
        nxt = []
        for y in live:
            for z, o in self.assign(s.target, e, y, fr, s):
                if o is not None:
                    out.append((z, o))
                    continue
                z.emit(Ev("iter", val=e, args=(src,), node=s, at=fr.fi, locks=z.locks, stack=z.stack))
                for w, o2 in self.passed(s, e, z, fr):
                    if o2 is None or o2[0] == "cont":
                        nxt.append(w)
                    elif o2[0] == "break":
                        w.flags = w.flags | {("left", src)}
                        out.append((w, None))
                    else:
                        if o2[0] != "exc":
                            w.flags = w.flags | {("left", src)}
                        out.append((w, o2))
            if len(nxt) + len(out) > self.max_paths:
                raise Budget()
        return nxt

    def passed(self, s, e, st, fr):
        """The body for one element; an element a filter leaves out goes through nothing."""
        pred = self.filters.get(id(s))
        if pred is None:
            return self.block(s.body, st, fr)
        out = []
        for x, v in [(st, e)] if is_none(pred) else self.call(pred, (e,), {}, s, st, fr):
            if isinstance(v, Raised):
                out.append((x, ("exc", v.exc)))
                continue
            for y, b in self.branch_v(x, v):
                out.extend(self.block(s.body, y, fr) if b else [(y, None)])
        return out

    def elem(self, itv, i, st):
        if itv.k == "app":
            f = itv.a[0]
            if f in ("list", "tuple", "sorted", "reversed", "copy", "iter", "set") and len(itv.a) == 2:
                return self.elem(itv.a[1], i, st)
            if f == "values":
                d = itv.a[1]
                key = V("key", d, i)
                return self.rd(st, ("I", d, key)) or V("item", d, key)
            if f == "keys":
                return V("key", itv.a[1], i)
            if f == "range":
                n = [x for x in itv.a[1:]]
                if len(n) == 1:
                    return const(i)
                if len(n) == 2 and n[0].k == "const" and isinstance(n[0].a[1], int):
                    return const(n[0].a[1] + i)
                if len(n) == 3:
                    return self.binop("+", n[0], self.binop("*", const(i), n[2]))
                return self.binop("+", n[0], const(i))
            if f == "enumerate":
                return V("elem", itv, i)
        got = st.store.get(("COMP", itv)) if itv.k == "obj" and itv.a[0] == "list" else None
        if got and len(got) == 1 and i != "*":
            return unstar(got[0], i)
        t = self.ty(itv, st)
        if t and t[0] == "dict":
            return V("key", itv, i)
        return V("elem", itv, i)

    def items_of(self, v, st):
        """Concrete items of an iterable when fully known, else None."""
        if v.k == "tup":
            return list(v.a)
        if v.k == "obj":
            if v.a[0] in ("list", "set"):
                c = self.rd(st, ("C", v))
                return list(c) if c is not None else None
            if v.a[0] == "dict":
                if self.rd(st, ("KC", v)):
                    return list(self.rd(st, ("K", v)) or ())
                return None
        if v.k == "class" and self.is_enum(v.a[0]):
            return [V("enum", v.a[0], m) for m in v.a[0].assigns]
        if v.k == "app":
            f, *a = v.a
            if f in ("list", "tuple", "sorted", "copy", "iter", "set", "reversed") and len(a) == 1:
                r = self.items_of(a[0], st)
                if r is not None and f == "reversed":
                    r = r[::-1]
                return r
            if f == "range" and all(is_const(x) and isinstance(cval(x), int) for x in a):
                r = list(range(*[cval(x) for x in a]))
                if len(r) <= 12:
                    return [const(i) for i in r]
                return None
            if f == "keys":
                return self.items_of(a[0], st)
            if f in ("items", "values"):
                ks = self.items_of(a[0], st) if a[0].k == "obj" and a[0].a[0] == "dict" else None
                if ks is None:
                    return None
                vs = [self.rd(st, ("I", a[0], k)) or V("item", a[0], k) for k in ks]
                return vs if f == "values" else [V("tup", k, x) for k, x in zip(ks, vs)]
            if f == "enumerate" and len(a) == 1:
                r = self.items_of(a[0], st)
                return None if r is None else [V("tup", const(i), x) for i, x in enumerate(r)]
            if f == "zip":
                rs = [self.items_of(x, st) for x in a]
                if all(r is not None for r in rs):
                    return [V("tup", *t) for t in zip(*rs)]
        if v.k == "const" and isinstance(v.a[1], str) and len(v.a[1]) <= 12:
            return [const(c) for c in v.a[1]]
        return None

    def is_enum(self, ci):
        return any(isinstance(m, str) and m.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag") for m in self.p.mro(ci))

    # try / with
    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            if isinstance(t, ast.Name) and t.id in BUILTIN_EXC and self.p.lookup(fr.module, t.id) is None:
                out.append(t.id)
                continue
            r = self.p.resolve_expr(t, fr.module)
            out.append(r.name if isinstance(r, CI) else r)
        return out

    def s_Try(self, s, st, fr):
        hn = [self.handler_names(h, st, fr) for h in s.handlers]
        flat = tuple(n for ns in hn for n in ns)
        old = st.tries
        st.tries = old + ((flat,) if s.handlers else ())
        res = self.block(s.body, st, fr)
        for x, _ in res:
            x.tries = old
        after = []
        for x, out in res:
            if out is None:
                after.extend(self.block(s.orelse, x, fr) if s.orelse else [(x, None)])
                continue
            if out[0] != "exc" or not s.handlers:
                after.append((x, out))
                continue
            name = out[1].a[0]
            cur = x
            caught = False
            for h, ns in zip(s.handlers, hn):
                ms = [exc_super(self.p, name, n) for n in ns]
                if any(m is True for m in ms):
                    after.extend(self.handle(h, cur, out[1], fr))
                    caught = True
                    break
                if any(m is None for m in ms):
                    after.extend(self.handle(h, cur.fork(), out[1], fr))
            if not caught:
                after.append((cur, out))
        if not s.finalbody:
            return after
        final = []
        for x, out in after:
            for y, o2 in self.block(s.finalbody, x, fr):
                final.append((y, out if o2 is None else o2))
        return final

    s_TryStar = s_Try

    def handle(self, h, st, exc, fr):
        prev = st.store.get(("CUREXC",))
        st.store[("CUREXC",)] = exc
        if h.name:
            st.store[("L", fr.fid, h.name)] = exc
        st.emit(Ev("catch", exc.a[0], val=exc, node=h, at=fr.fi, locks=st.locks, stack=st.stack))
        res = self.block(h.body, st, fr)
        for x, o in res:
            if prev is None:
                x.store.pop(("CUREXC",), None)
            else:
                x.store[("CUREXC",)] = prev
        return res

    def s_With(self, s, st, fr):
        return self.with_items(list(s.items), s, st, fr)

    s_AsyncWith = s_With

    def with_items(self, items, s, st, fr):
        if not items:
            return self.block(s.body, st, fr)
        it, rest = items[0], items[1:]
        out = []
        # inlinable @contextmanager?
        if isinstance(it.context_expr, ast.Call):
            for x, r in self.ev_callee(it.context_expr, st, fr):
                if isinstance(r, Raised):
                    out.append((x, ("exc", r.exc)))
                    continue
                fv, args, kw = r
                fi, recv, clos = self.callable_fi(fv, x)
                if fi is not None and fi.is_ctxmgr and self.may_inline(fi, x, fv):
                    out.extend(self.with_gen(fi, recv, clos, args, kw, it, rest, s, x, fr))
                else:
                    for y, v in self.call(fv, args, kw, it.context_expr, x, fr):
                        if isinstance(v, Raised):
                            out.append((y, ("exc", v.exc)))
                        else:
                            out.extend(self.with_val(v, it, rest, s, y, fr))
            return out
        for x, v in self.ev(it.context_expr, st, fr):
            if isinstance(v, Raised):
                out.append((x, ("exc", v.exc)))
            else:
                out.extend(self.with_val(v, it, rest, s, x, fr))
        return out

    def acquire(self, v, st, node, fr, how):
        i = st.uid()
        st.locks = st.locks + ((v, i),)
        st.emit(Ev("acquire", how, recv=v, val=const(i), node=node, at=fr.fi, locks=st.locks, stack=st.stack))

    def release(self, v, st, node, fr, how):
        for j in range(len(st.locks) - 1, -1, -1):
            if st.locks[j][0] == v:
                st.locks = st.locks[:j] + st.locks[j + 1:]
                break
        st.emit(Ev("release", how, recv=v, node=node, at=fr.fi, locks=st.locks, stack=st.stack))

    def with_val(self, v, it, rest, s, st, fr):
        out = []
        if self.is_lock(v, st):
            self.acquire(v, st, s, fr, "with")
            live = [(st, None)]
            if it.optional_vars is not None:
                live = self.assign(it.optional_vars, V("attr", v, "item"), st, fr, s)
            for x, o in live:
                for y, o2 in (self.with_items(rest, s, x, fr) if o is None else [(x, o)]):
                    self.release(v, y, s, fr, "with")
                    out.append((y, o2))
            return out
        # opaque context manager
        st.emit(Ev("enter_ctx", recv=v, node=s, at=fr.fi, locks=st.locks, stack=st.stack))
        ent = v if v.k in ("obj", "call") else V("app", "enter", v)
        if v.k == "call":
            ent = v
        live = [(st, None)]
        if it.optional_vars is not None:
            live = self.assign(it.optional_vars, ent, st, fr, s)
        for x, o in live:
            for y, o2 in (self.with_items(rest, s, x, fr) if o is None else [(x, o)]):
                y.emit(Ev("exit_ctx", recv=v, node=s, at=fr.fi, locks=y.locks, stack=y.stack))
                if o2 is not None and o2[0] == "exc" and v.k == "call" and str(v.a[0]).endswith("suppress"):
                    out.append((y.fork(), None))
                out.append((y, o2))
        return out

    def with_gen(self, fi, recv, clos, args, kw, it, rest, s, st, fr):
        """Inline a @contextmanager generator around the with-body."""
        def handler(x, val):
            saved_yh, saved_stack, saved_tries = x.yh, x.stack, x.tries
            x.yh = x.yh[:-1]
            x.stack = x.stack[:-1] if x.stack else ()
            live = [(x, None)]
            if it.optional_vars is not None:
                live = self.assign(it.optional_vars, val, x, fr, s)
            res = []
            for y, o in live:
                for z, o2 in (self.with_items(rest, s, y, fr) if o is None else [(y, o)]):
                    z.yh, z.stack, z.tries = saved_yh, saved_stack, saved_tries
                    if o2 is None:
                        z.pend = z.pend + (None,)
                        res.append((z, NONE))
                    elif o2[0] == "exc":
                        res.append((z, Raised(o2[1])))
                    else:
                        z.pend = z.pend + (o2,)
                        res.append((z, NONE))
            return res

        bound, bad = self.bind_args(fi, recv, args, kw, st, fr)
        st.yh = st.yh + (handler,)
        old = st.yh[:-1]
        n = len(st.pend)
        st.emit(Ev("enter", fi.name, fi=fi, recv=recv, args=tuple(args), kw=kw, node=s, at=fr.fi, locks=st.locks, stack=st.stack))
        res = self.run(fi, bound, st, clos)
        out = []
        for x, o in res:
            x.yh = old
            p = None
            if len(x.pend) > n:
                p = x.pend[n]
                x.pend = x.pend[:n]
                ran = True
            else:
                ran = False
            x.emit(Ev("leave", fi.name, fi=fi, recv=recv, val=None, node=s, at=fr.fi, locks=x.locks, stack=x.stack))
            if o is not None and o[0] == "exc":
                out.append((x, o))
            elif ran:
                out.append((x, p))
            else:
                # body raised and the generator swallowed it, or never yielded
                out.append((x, None))
        return out

    def s_Match(self, s, st, fr):
        out = []
        for x, subj in self.ev(s.subject, st, fr):
            if isinstance(subj, Raised):
                out.append((x, ("exc", subj.exc)))
                continue
            live = [x]
            for c in s.cases:
                nxt = []
                for y in live:
                    for z, b in self.match_pat(c.pattern, subj, y, fr):
                        if b and c.guard is not None:
                            for w, g in self.cond(c.guard, z, fr):
                                if isinstance(g, Raised):
                                    out.append((w, ("exc", g.exc)))
                                elif g:
                                    out.extend(self.block(c.body, w, fr))
                                else:
                                    nxt.append(w)
                        elif b:
                            out.extend(self.block(c.body, z, fr))
                        else:
                            nxt.append(z)
                live = nxt
            out.extend((y, None) for y in live)
        return out

    def match_pat(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, v in self.ev(p.value, st, fr):
                out.extend(self.branch(x, V("cmp", "==", subj, v)))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, V("cmp", "is", subj, const(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind_name(p.name, subj, st, fr)
                return [(st, True)]
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for q in p.patterns:
                nxt = []
                for x in live:
                    for y, b in self.match_pat(q, subj, x, fr):
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(x, False) for x in live]
        self.note("unsupported match pattern")
        return self.branch(st, V("app", "match", subj, const(ast.dump(p))))

    # ------------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        """[(st, bool | Raised)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            live, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for y in live:
                    for z, b in self.cond(x, y, fr):
                        if isinstance(b, Raised):
                            out.append((z, b))
                        elif b != is_and:
                            out.append((z, b))
                        else:
                            nxt.append(z)
                live = nxt
            return out + [(y, is_and) for y in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, b if isinstance(b, Raised) else not b) for x, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.IfExp):
            out = []
            for x, b in self.cond(e.test, st, fr):
                if isinstance(b, Raised):
                    out.append((x, b))
                else:
                    out.extend(self.cond(e.body if b else e.orelse, x, fr))
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # chained
            vals = [e.left] + e.comparators
            live, out = [st], []
            res = []
            for x, vs in self.evs(vals, st, fr):
                if isinstance(vs, Raised):
                    out.append((x, vs))
                    continue
                live = [x]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for y in live:
                        for z, b in self.branch_v(y, self.compare(op, vs[i], vs[i + 1])):
                            if b:
                                nxt.append(z)
                            else:
                                out.append((z, False))
                    live = nxt
                out.extend((y, True) for y in live)
            return out
        out = []
        for x, v in self.ev(e, st, fr):
            if isinstance(v, Raised):
                out.append((x, v))
            else:
                out.extend(self.branch_v(x, v))
        return out

    def branch_v(self, st, v):
        """branch, expanding membership in a known literal into equalities."""
        n, pol = self.norm(v)
        if n.k == "cmp" and n.a[0] == "in" and self._truth(n, st) is None:
            x, c = n.a[1], n.a[2]
            its = None
            if c.k == "tup" or (c.k == "obj" and c.a[0] in ("list", "set", "dict")):
                its = self.items_of(c, st)
            if its and len(its) <= 12:
                live, out = [st], []
                for q in its:
                    nxt = []
                    for y in live:
                        for z, b in self.branch(y, V("cmp", "==", x, q)):
                            if b:
                                z = z if z is not y else z.fork()
                                z.facts[n] = True
                                out.append((z, pol))
                            else:
                                nxt.append(z)
                    live = nxt
                for y in live:
                    y = y.fork()
                    y.facts[n] = False
                    out.append((y, not pol))
                return out
        return self.branch(st, v)

    def evs(self, es, st, fr):
        live = [(st, [])]
        out = []
        for e in es:
            nxt = []
            for x, acc in live:
                for y, v in self.ev(e, x, fr):
                    if isinstance(v, Raised):
                        out.append((y, v))
                    else:
                        nxt.append((y, acc + [v]))
            live = nxt
        return out + live

    def ev(self, e, st, fr):
        self.tick(st)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("unsupported expression %s" % type(e).__name__)
            return [(st, V("sym", "?%s" % type(e).__name__))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, const(e.value))]

    def e_Name(self, e, st, fr):
        n = e.id
        f = fr.fi
        # comprehension scope
        v = st.store.get(("L", fr.fid, n))
        if v is not None:
            return [(st, v)]
        pf = fr.parent
        if f is not None and not f.is_lambda and n in f.locals[0]:
            st2 = st.fork()
            st2.emit(Ev("unbound", n, node=e, at=f, locks=st.locks, stack=st.stack))
            return [(st2, Raised(self.raise_(st2, "UnboundLocalError", e, fr)))]
        while pf is not None:
            v = st.store.get(("L", pf, n))
            if v is not None:
                return [(st, v)]
            if pf not in st.frames:
                break
            pf = st.frames[pf][1]
        r = self.p.lookup(fr.module, n)
        v = self.resolved(r)
        if v is not None:
            return [(st, v)]
        if r is not None and r[0] == "var":
            return [(st, self.global_value(r[1], r[2]))]
        if n in ("True", "False", "None"):
            return [(st, const({"True": True, "False": False, "None": None}[n]))]
        if n == "__name__":
            return [(st, const(fr.module.name))]
        return [(st, V("ext", n))]

    def resolved(self, r):
        if r is None:
            return None
        if r[0] == "cls":
            return V("class", r[1])
        if r[0] == "def":
            return V("func", r[1], None)
        if r[0] == "mod":
            return V("mod", r[1])
        if r[0] == "ext":
            return V("ext", r[1])
        return None

    def e_Attribute(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            if isinstance(b, Raised):
                out.append((x, b))
            else:
                out.extend(self.get_attr(b, e.attr, x, fr, e))
        return out

    def get_attr(self, b, attr, st, fr, node, call=False):
        if b.k == "mod":
            m = b.a[0]
            r = self.p.lookup(m, attr)
            v = self.resolved(r)
            if v is not None:
                return [(st, v)]
            if r is not None and r[0] == "var":
                return [(st, self.global_value(r[1], r[2]))]
            if m.name + "." + attr in self.p.modules:
                return [(st, V("mod", self.p.modules[m.name + "." + attr]))]
            return [(st, V("attr", b, attr))]
        if b.k == "ext":
            return [(st, V("ext", b.a[0] + "." + attr))]
        v = st.store.get(("A", b, attr))
        if v is None:
            v = self.gstore.get(("A", b, attr))
        if v is not None:
            if self.track_reads:
                st.emit(Ev("read", attr, recv=b, val=v, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
            return [(st, v)]
        if b.k == "super":
            me, cls = b.a
            t = self.ty(me, st)
            c = t[1] if t and t[0] in ("c", "type") else cls
            m = self.p.find_method(c, attr, after=cls)
            if isinstance(m, FI):
                return [(st, V("bound", m, me))]
            return [(st, V("extm", me, attr, (m[1] if m else "object")))]
        if b.k == "class":
            ci = b.a[0]
            if self.is_enum(ci) and attr in ci.assigns:
                return [(st, V("enum", ci, attr))]
            m = self.p.find_method(ci, attr)
            if isinstance(m, FI):
                if m.is_classmethod:
                    return [(st, V("bound", m, b))]
                return [(st, V("func", m, None))]
            for c in self.p.mro(ci):
                if isinstance(c, CI) and attr in c.assigns:
                    return [(st, self.class_attr(c, attr))]
            if attr == "__name__":
                return [(st, const(ci.name))]
            return [(st, V("attr", b, attr))]
        if b.k == "enum" and attr in ("value", "name"):
            if attr == "name":
                return [(st, const(b.a[1]))]
            v = self.enum_value(b)
            return [(st, v if v is not None else V("attr", b, attr))]
        t = self.ty(b, st)
        if t and t[0] in ("c", "type"):
            m = self.p.find_method(t[1], attr)
            if isinstance(m, FI):
                if m.is_property:
                    if self.may_inline(m, st, None):
                        return self.inline(m, b, None, [], {}, node, st, fr)
                    r = V("attr", b, attr, ty=self.p.ann_type(m.node.returns, m.module))
                    return [(st, r)]
                if m.is_static:
                    return [(st, V("func", m, None))]
                if m.is_classmethod:
                    return [(st, V("bound", m, V("class", t[1])))]
                return [(st, V("bound", m, b))]
            own = t[0] == "c" and attr in self.nt_fields(t[1]) or any(isinstance(c, CI) and attr in self.p._attrs(c) for c in self.p.mro(t[1]))
            if isinstance(m, tuple) and not own:
                return [(st, V("extm", b, attr, m[1]))]
            for c in self.p.mro(t[1]):
                if isinstance(c, CI) and attr in c.assigns and not own:
                    return [(st, self.class_attr(c, attr))]
        r = V("attr", b, attr)
        if attr in self.volatile:
            for f in [f for f in st.facts if mentions(f, r)]:
                st.facts.pop(f)
        if self.track_reads:
            st.emit(Ev("read", attr, recv=b, val=r, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
        return [(st, r)]

    def class_attr(self, c, attr):
        key = ("cattr", c, attr)
        if key not in self.gvars:
            self.gvars[key] = None
            self.gvars[key] = self.const_eval(c.assigns[attr], c.module) or V("attr", V("class", c), attr)
        return self.gvars[key] or V("attr", V("class", c), attr)

    def e_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for x, vs in self.evs(parts, st, fr):
                if isinstance(vs, Raised):
                    out.append((x, vs))
                    continue
                b, rest = vs[0], vs[1:]
                lo = rest.pop(0) if e.slice.lower is not None else NONE
                hi = rest.pop(0) if e.slice.upper is not None else NONE
                sp = rest.pop(0) if e.slice.step is not None else NONE
                its = self.items_of(b, x) if b.k in ("tup", "obj") else None
                if its is not None and all(is_const(q) for q in (lo, hi, sp)):
                    try:
                        sub = its[slice(cval(lo), cval(hi), cval(sp))]
                        out.append((x, V("tup", *sub) if b.k == "tup" else self.new_list(sub, x)))
                        continue
                    except TypeError:
                        pass
                if is_const(lo, 0):
                    lo = NONE
                out.append((x, V("app", "slice", b, lo, hi, sp)))
            return out
        for x, vs in self.evs([e.value, e.slice], st, fr):
            if isinstance(vs, Raised):
                out.append((x, vs))
            else:
                out.extend(self.get_item(vs[0], vs[1], x, fr, e))
        return out

    def get_item(self, b, key, st, fr, node):
        if b.k == "obj" and b.a[0] == "dict":
            v = self.rd(st, ("I", b, key))
            ks = self.rd(st, ("K", b)) or ()
            if v is not None and key in ks:
                return [(st, v)]
            complete = self.rd(st, ("KC", b))
            df = self.rd(st, ("DF", b))
            if complete and not self.is_value(key) and all(self.is_value(k) for k in ks) and 0 < len(ks) <= 16:
                out, live = [], [st]
                for k in ks:
                    nxt = []
                    for x in live:
                        for y, bb in self.branch(x, V("cmp", "==", key, k)):
                            if bb:
                                out.append((y, self.rd(y, ("I", b, k)) or V("item", b, k)))
                            else:
                                nxt.append(y)
                    live = nxt
                for x in live:
                    out.extend(self.missing(b, key, df, x, fr, node))
                return out
            if complete and (key not in ks) and (not ks or (self.is_value(key) and all(self.is_value(k) for k in ks))):
                return self.missing(b, key, df, st, fr, node)
            return self._item_sym(b, key, st, fr, node)
        if b.k == "class" and self.is_enum(b.a[0]) and is_const(key):
            if cval(key) in b.a[0].assigns:
                return [(st, V("enum", b.a[0], cval(key)))]
        if b.k in ("tup",) or (b.k == "obj" and b.a[0] == "list") or b.k == "elem" or (is_const(key) and isinstance(cval(key), int)):
            return [(st, self.index(b, key, st))]
        return self._item_sym(b, key, st, fr, node)

    def _item_sym(self, b, key, st, fr, node):
        out = []
        for s2, absent in self.key_absent(b, key, st):
            if absent == "yes":
                s2 = s2 if s2 is not st else s2.fork()
                out.append((s2, Raised(self.raise_(s2, "KeyError", node, fr))))
                continue
            v = self.rd(s2, ("I", b, key))
            if v is None:
                v = V("item", b, key)
            if self.track_reads:
                s2.emit(Ev("readitem", recv=b, args=(key,), val=v, node=node, at=fr.fi, locks=s2.locks, stack=s2.stack))
            out.append((s2, v))
        return out

    def missing(self, b, key, df, st, fr, node):
        if df is None:
            s2 = st.fork()
            return [(s2, Raised(self.raise_(s2, "KeyError", node, fr)))]
        out = []
        for x, v in self.call(df, [], {}, node, st.fork(), fr):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            self.set_item(b, key, v, x, fr, node)
            out.append((x, v))
        return out

    def new_list(self, items, st, kind="list"):
        o = V("obj", kind, st.uid())
        st.store[("C", o)] = tuple(items) if items is not None else None
        return o

    def new_dict(self, st, pairs=(), complete=True, df=None):
        o = V("obj", "dict", st.uid())
        ks = []
        for k, v in pairs:
            if k not in ks:
                ks.append(k)
            st.store[("I", o, k)] = v
        st.store[("K", o)] = tuple(ks)
        if complete:
            st.store[("KC", o)] = TRUE
        if df is not None:
            st.store[("DF", o)] = df
        return o

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(x, v if isinstance(v, Raised) else V("tup", *v)) for x, v in self.star_elts(e.elts, st, fr)]
        return [(x, v if isinstance(v, Raised) else V("tup", *v)) for x, v in self.evs(e.elts, st, fr)]

    def star_elts(self, elts, st, fr):
        live, out = [(st, [])], []
        for el in elts:
            nxt = []
            for x, acc in live:
                for y, v in self.ev(el.value if isinstance(el, ast.Starred) else el, x, fr):
                    if isinstance(v, Raised):
                        out.append((y, v))
                    elif isinstance(el, ast.Starred):
                        its = self.items_of(v, y)
                        nxt.append((y, acc + (its if its is not None else [V("app", "star", v)])))
                    else:
                        nxt.append((y, acc + [v]))
            live = nxt
        return out + live

    def e_List(self, e, st, fr):
        return [(x, v if isinstance(v, Raised) else self.new_list(v, x)) for x, v in self.star_elts(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(x, v if isinstance(v, Raised) else self.new_list(v, x, "set")) for x, v in self.star_elts(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        ks = [k for k in e.keys]
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                flat.append(k)
            flat.append(v)
        out = []
        for x, vs in self.evs(flat, st, fr):
            if isinstance(vs, Raised):
                out.append((x, vs))
                continue
            vs = list(vs)
            pairs, complete = [], True
            for k in ks:
                if k is None:
                    d = vs.pop(0)
                    it = self.items_of(V("app", "items", d), x) if d.k == "obj" else None
                    if it is None:
                        complete = False
                    else:
                        pairs += [(p.a[0], p.a[1]) for p in it]
                else:
                    kk = vs.pop(0)
                    pairs.append((kk, vs.pop(0)))
            out.append((x, self.new_dict(x, pairs, complete)))
        return out

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        out = []
        for x, vs in self.evs(parts, st, fr):
            if isinstance(vs, Raised):
                out.append((x, vs))
            elif all(is_const(q) for q in vs):
                out.append((x, const("".join(str(cval(q)) for q in vs))))
            else:
                out.append((x, fstr(vs)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_BinOp(self, e, st, fr):
        o = OPS.get(type(e.op), "?")
        out = []
        for x, v in self.evs([e.left, e.right], st, fr):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            a, b = v
            if o == "+" and a.k == "obj" and b.k == "obj" and a.a[0] == "list" and b.a[0] == "list":
                ia, ib = self.items_of(a, x), self.items_of(b, x)
                if ia is not None and ib is not None:
                    out.append((x, self.new_list(ia + ib, x)))
                    continue
            out.append((x, self.binop(o, a, b)))
        return out

    def binop(self, o, a, b):
        if a.k == "const" and b.k == "const":
            try:
                f = FOLD.get(o)
                if f is not None:
                    r = f(a.a[1], b.a[1])
                    if not (isinstance(r, (int,)) and abs(r) > 2 ** 130):
                        return const(r)
            except Exception:  # noqa
                pass
        if o == "+" and a.k == "tup" and b.k == "tup":
            return V("tup", *(a.a + b.a))
        if o in ("+", "-") and is_const(b, 0):
            return a
        if o == "+" and is_const(a, 0):
            return b
        if o == "*" and is_const(b, 1):
            return a
        if o == "*" and is_const(a, 1):
            return b
        if o == "%" and (a.k == "fstr" or (a.k == "const" and isinstance(a.a[1], str))):
            return V("fstr", a, b)
        if o == "+" and (a.k == "fstr" or (is_const(a) and isinstance(cval(a), str))) and (b.k == "fstr" or (is_const(b) and isinstance(cval(b), str))):
            return fstr((a, b))
        return V("bin", o, a, b)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            out = []
            for x, v in self.ev(e.operand, st, fr):
                if isinstance(v, Raised):
                    out.append((x, v))
                    continue
                t = self.truth(v, x)
                out.append((x, const(not t) if t is not None else V("not", v)))
            return out
        out = []
        for x, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raised):
                out.append((x, v))
            elif v.k == "const" and isinstance(v.a[1], (int, float)):
                q = v.a[1]
                out.append((x, const(-q if isinstance(e.op, ast.USub) else (+q if isinstance(e.op, ast.UAdd) else ~q))))
            elif isinstance(e.op, ast.UAdd):
                out.append((x, v))
            else:
                out.append((x, V("app", "neg" if isinstance(e.op, ast.USub) else "inv", v)))
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        live, out = [st], []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for y in live:
                for z, v in self.ev(x, y, fr):
                    if isinstance(v, Raised) or last:
                        out.append((z, v))
                        continue
                    for w, b in self.branch_v(z, v):
                        if b != is_and:
                            r = v
                            n, _ = self.norm(v)
                            if n.k in ("cmp",) or (n.k == "app" and n.a[0] in ("isinstance", "hasattr")):
                                r = const(b)
                            out.append((w, r))
                        else:
                            nxt.append(w)
            live = nxt
        return out

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return V("cmp", "==", a, b)
        if t is ast.NotEq:
            return V("not", V("cmp", "==", a, b))
        if t is ast.Is:
            return V("cmp", "is", a, b)
        if t is ast.IsNot:
            return V("not", V("cmp", "is", a, b))
        if t is ast.In:
            return V("cmp", "in", a, self.in_base(b))
        if t is ast.NotIn:
            return V("not", V("cmp", "in", a, self.in_base(b)))
        if t is ast.Lt:
            return V("cmp", "<", a, b)
        if t is ast.Gt:
            return V("cmp", "<", b, a)
        if t is ast.LtE:
            return V("not", V("cmp", "<", b, a))
        if t is ast.GtE:
            return V("not", V("cmp", "<", a, b))
        return V("app", "cmp?", a, b)

    def in_base(self, b):
        while b.k == "app" and b.a[0] in ("keys", "list", "set", "tuple", "sorted", "copy") and len(b.a) == 2:
            b = b.a[1]
        return b

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            return [(x, b if isinstance(b, Raised) else const(b)) for x, b in self.cond(e, st, fr)]
        out = []
        for x, vs in self.evs([e.left, e.comparators[0]], st, fr):
            if isinstance(vs, Raised):
                out.append((x, vs))
                continue
            c = self.compare(e.ops[0], vs[0], vs[1])
            t = self.truth(c, x)
            out.append((x, const(t) if t is not None else c))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for x, b in self.cond(e.test, st, fr):
            if isinstance(b, Raised):
                out.append((x, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, x, fr))
        return out

    def e_Lambda(self, e, st, fr):
        fi = self.p.fi_by_node.get(e)
        if fi is None:
            fi = FI("<lambda>", e, fr.module, None, fr.fi)
            self.p.fi_by_node[e] = fi
        return [(st, V("func", fi, fr.fid if fr.fi is not None else None))]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            if not isinstance(v, Raised):
                self.bind_name(e.target.id, v, x, fr)
            out.append((x, v))
        return out

    def e_Starred(self, e, st, fr):
        return [(x, v if isinstance(v, Raised) else V("app", "star", v)) for x, v in self.ev(e.value, st, fr)]

    def e_Await(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            if not isinstance(v, Raised):
                x.emit(Ev("await", val=v, node=e, at=fr.fi, locks=x.locks, stack=x.stack))
            out.append((x, v))
        return out

    def e_Yield(self, e, st, fr):
        out = []
        for x, v in (self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]):
            if isinstance(v, Raised):
                out.append((x, v))
                continue
            x.emit(Ev("yield", val=v, node=e, at=fr.fi, locks=x.locks, stack=x.stack))
            if x.yh and fr.fi is not None and fr.fi.is_ctxmgr:
                out.extend(x.yh[-1](x, v))
            else:
                out.append((x, V("call", "sent", x.uid())))
                # the consumer may raise at the yield point (context managers)
                if fr.fi is not None and fr.fi.is_ctxmgr:
                    y = x.fork()
                    out.append((y, Raised(self.raise_(y, "?", e, fr))))
        return out

    def e_YieldFrom(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # comprehensions: one representative element (or concrete items)
    def comp(self, e, st, fr, kind):
        def gen(i, x):
            """[(state, list of element results)]"""
            if i == len(e.generators):
                if kind == "dict":
                    return [(y, v if isinstance(v, Raised) else [V("tup", *v)]) for y, v in self.evs([e.key, e.value], x, fr)]
                return [(y, v if isinstance(v, Raised) else [v]) for y, v in self.ev(e.elt, x, fr)]
            g = e.generators[i]
            out = []
            for y, itv in self.ev(g.iter, x, fr):
                if isinstance(itv, Raised):
                    out.append((y, itv))
                    continue
                items = self.items_of(itv, y)
                sym = items is None
                if sym and itv.k == "app" and itv.a[0] == "range":
                    runs = []
                    f, c = V("app", "ranged", itv), V("app", "more", self.cont(itv))
                    for n in sorted(self.loop):
                        if f in y.facts and y.facts[f] != (n > 0):
                            continue
                        z = y.fork()
                        z.facts[f] = n > 0
                        if n:
                            z.facts[c] = n > 1
                        z.flags = z.flags | {"loop" if n else "loop0"}
                        runs.append((z, [const(j) if len(itv.a) == 2 else self.elem(itv, j, z) for j in range(n)]))
                    sym = False
                elif sym:
                    runs = [(y, [self.elem(itv, "*", y)])]
                else:
                    runs = [(y, items)]
                for y, items in runs:
                  live = [(y, [])]
                  for it in items:
                      nxt = []
                      for z, acc in live:
                          z = z.fork()
                          if sym:
                              z.flags = z.flags | {"loop"}
                              z.emit(Ev("compiter", None, args=(itv,), val=it, node=e, at=fr.fi, locks=z.locks, stack=z.stack))
                          for w, o in self.assign(g.target, it, z, fr, e):
                              if o is not None:
                                  out.append((w, Raised(o[1])))
                                  continue
                              conds = [(w, True)]
                              for c in g.ifs:
                                  n2 = []
                                  for q, b in conds:
                                      if b is True:
                                          n2.extend(self.cond(c, q, fr))
                                      else:
                                          n2.append((q, b))
                                  conds = n2
                              for q, b in conds:
                                  if isinstance(b, Raised):
                                      out.append((q, b))
                                  elif not b:
                                      nxt.append((q, acc))
                                  else:
                                      for r, el in gen(i + 1, q):
                                          if isinstance(el, Raised):
                                              out.append((r, el))
                                          else:
                                              nxt.append((r, acc + el))
                      live = nxt
                  for z, acc in live:
                      if sym:
                          self_sym.append(True)
                      out.append((z, acc))
            return out

        self_sym = []
        # comprehension variables live in the frame under their own names; save/restore
        names = set()
        for g in e.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        saved = {n: st.store.get(("L", fr.fid, n)) for n in names}
        res = []
        for x, acc in gen(0, st):
            for n, v in saved.items():
                if v is None:
                    x.store.pop(("L", fr.fid, n), None)
                else:
                    x.store[("L", fr.fid, n)] = v
            if isinstance(acc, Raised):
                res.append((x, acc))
                continue
            if kind == "dict":
                if self_sym:
                    d = self.new_dict(x, (), complete=False)
                    x.store[("COMP", d)] = tuple(acc)
                    res.append((x, d))
                else:
                    res.append((x, self.new_dict(x, [(t.a[0], t.a[1]) for t in acc])))
            elif self_sym:
                o = self.new_list(None, x, "set" if kind == "set" else "list")
                x.store[("COMP", o)] = tuple(acc)
                if acc:
                    o2 = o.typed(("list", self.ty(acc[0], x)))
                    res.append((x, o2))
                else:
                    res.append((x, o))
            else:
                res.append((x, self.new_list(acc, x, "set" if kind == "set" else "list")))
        return res

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # ------------------------------------------------------------------ calls
    def ev_callee(self, e, st, fr):
        """[(st, (fv, args, kw) | Raised)]"""
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and fr.fi is not None:
            f = fr.fi
            while f.parent is not None and f.cls is None:
                f = f.parent
            me = None
            if f.params:
                # find the frame of the method
                fid = fr.fid
                cur = (fr.fi, fr.parent)
                while cur[0] is not f and cur[1] is not None:
                    fid = cur[1]
                    cur = st.frames[fid]
                me = st.store.get(("L", fid, f.params[0]))
            if me is not None and f.cls is not None:
                return [(st, (V("superfn", V("super", me, f.cls)), [], {}))]
        for x, fv in self.ev(e.func, st, fr):
            if isinstance(fv, Raised):
                out.append((x, fv))
                continue
            parts = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            for y, vs in self.evs(parts, x, fr):
                if isinstance(vs, Raised):
                    out.append((y, vs))
                    continue
                args, kw = [], {}
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        its = self.items_of(v, y)
                        args += its if its is not None else [V("app", "star", v)]
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        ks = self.items_of(v, y) if v.k == "obj" and v.a[0] == "dict" else None
                        if ks is not None and all(is_const(q) for q in ks):
                            for q in ks:
                                kw[cval(q)] = self.rd(y, ("I", v, q)) or V("item", v, q)
                        else:
                            kw["**"] = v
                    else:
                        kw[k.arg] = v
                out.append((y, (fv, args, kw)))
        return out

    def e_Call(self, e, st, fr):
        out = []
        for x, r in self.ev_callee(e, st, fr):
            if isinstance(r, Raised):
                out.append((x, r))
            else:
                out.extend(self.call(r[0], r[1], r[2], e, x, fr))
        return out

    def callable_fi(self, fv, st):
        if fv.k == "func":
            return fv.a[0], None, fv.a[1]
        if fv.k == "bound":
            return fv.a[0], fv.a[1], None
        return None, None, None

    def may_inline(self, fi, st, fv):
        if fi.qual in self.opaque or fi.name in self.opaque:
            return False
        if self.inline_pred is not None and not self.inline_pred(fi, st):
            return False
        if self.inline_only is not None and fi.qual not in self.inline_only and fi.parent is None and not fi.is_lambda:
            return False
        if len(st.stack) > self.max_depth:
            self.note("inlining bound reached at %s" % fi.qual)
            return False
        if st.stack.count(fi) >= 2:
            return False
        return True

    def bind_args(self, fi, recv, args, kw, st, fr):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if recv is not None and not fi.is_static:
            pos = [recv] + pos
        bound = {}
        star = None
        flat = []
        for v in pos:
            if v.k == "app" and v.a[0] == "star":
                star = v.a[1]
                break
            flat.append(v)
        for n, v in zip(ps, flat):
            bound[n] = v
        rest = flat[len(ps):]
        if a.vararg:
            if star is not None:
                bound[a.vararg.arg] = star if not rest else V("app", "cat", V("tup", *rest), star)
            else:
                bound[a.vararg.arg] = V("tup", *rest)
        kwargs = dict(kw)
        dstar = kwargs.pop("**", None)
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for n, v in kwargs.items():
            if n in ps or n in kwn:
                bound[n] = v
            else:
                extra[n] = v
        if a.kwarg:
            if dstar is not None and not extra:
                bound[a.kwarg.arg] = dstar
            else:
                bound[a.kwarg.arg] = self.new_dict(st, [(const(k), v) for k, v in extra.items()], complete=dstar is None)
        # defaults
        dfl = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        dfl.update({k: d for k, d in zip(kwn, a.kw_defaults) if d is not None})
        for n in ps + kwn:
            if n not in bound:
                if (star is not None and n in ps) or dstar is not None:
                    if n in dfl and star is None and dstar is not None and dstar.k == "sym":
                        bound[n] = V("sym", "kw:" + n, ty=self.p.param_type(fi, n))
                    else:
                        bound[n] = V("app", "unpacked", star if star is not None and n in ps else (dstar or NONE), const(n), ty=self.p.param_type(fi, n))
                    if star is None and n in dfl:
                        bound[n] = V("app", "kwget", dstar, const(n), ty=self.p.param_type(fi, n))
                elif n in dfl:
                    v = self.const_eval(dfl[n], fi.module)
                    bound[n] = v if v is not None else V("sym", "default:" + n)
                else:
                    bound[n] = V("sym", "missing:" + n, ty=self.p.param_type(fi, n))
        # attach declared types
        for n in list(bound):
            v = bound[n]
            if v.ty is None and v.k in ("sym", "call", "item", "attr", "elem", "key", "app") and self.ty(v, st) is None:
                t = self.types.get((fi.name, n)) or self.p.param_type(fi, n)
                if t:
                    bound[n] = v.typed(t)
        return bound, False

    def inline(self, fi, recv, clos, args, kw, node, st, fr):
        st = st.fork()
        bound, _ = self.bind_args(fi, recv, args, kw, st, fr)
        st.emit(Ev("enter", fi.name, fi=fi, recv=recv, args=tuple(args), kw=kw, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
        tries, yh = st.tries, st.yh
        out = []
        for x, o in self.run(fi, bound, st, clos):
            x.yh = yh
            x.tries = tries
            if o is not None and o[0] == "exc":
                x.emit(Ev("leave", fi.name, fi=fi, recv=recv, val=o[1], node=node, at=fr.fi, locks=x.locks, stack=x.stack))
                out.append((x, Raised(o[1])))
                continue
            v = o[1] if o is not None and o[0] == "ret" else NONE
            if v.ty is None and self.ty(v, x) is None and getattr(fi.node, "returns", None) is not None:
                rt = self.ty(recv, x) if recv is not None else None
                v = v.typed(self.p.ret_type(fi, rt[1] if rt and rt[0] == "c" else None))
            x.emit(Ev("leave", fi.name, fi=fi, recv=recv, args=tuple(args), val=v, node=node, at=fr.fi, locks=x.locks, stack=x.stack))
            out.append((x, v))
        if len(out) > self.max_paths:
            raise Budget()
        return out

    def call(self, fv, args, kw, node, st, fr):
        self.tick(st)
        k = fv.k
        if k == "superfn":
            return [(st, fv.a[0])]
        fi, recv, clos = self.callable_fi(fv, st)
        if fi is not None:
            if k == "func" and fi.cls is not None and fi.parent is None and not fi.is_static and args and not fi.is_lambda:
                # Class.method(self, ...)
                recv, args = args[0], args[1:]
            if fi.is_generator and not fi.is_lambda and not (fi.is_ctxmgr and st.yh is None):
                # generator object: body runs when consumed
                return self.opaque_call(fi.name, fi, recv, args, kw, node, st, fr, ret=self.p.ann_type(fi.node.returns, fi.module))
            if self.may_inline(fi, st, fv):
                return self.inline(fi, recv, clos, args, kw, node, st, fr)
            ct = self.ty(recv, st) if recv is not None else None
            rt = self.p.ret_type(fi, ct[1] if ct and ct[0] == "c" else None)
            return self.opaque_call(fi.name, fi, recv, args, kw, node, st, fr, ret=rt)
        if k == "class":
            return self.instantiate(fv.a[0], args, kw, node, st, fr)
        if k == "ext":
            return self.call_ext(fv.a[0], args, kw, node, st, fr)
        if k == "extm":
            b, name, base = fv.a
            if name == "__init__":
                st.emit(Ev("call", "__init__", recv=b, args=tuple(args), kw=kw, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
                return [(st, NONE)]
            return self.opaque_call(name, None, b, args, kw, node, st, fr, fn=fv)
        if k == "attr":
            return self.call_method(fv.a[0], fv.a[1], fv, args, kw, node, st, fr)
        if k == "lambda":
            pass
        desc = {"item": "<item>", "call": "<call>", "sym": "<sym>"}.get(k, "<%s>" % k)
        return self.opaque_call(desc, None, None, args, kw, node, st, fr, fn=fv)

    def opaque_call(self, name, fi, recv, args, kw, node, st, fr, ret=None, fn=None, pure=False):
        st = st.fork()
        r = V("call", (fi.qual if fi is not None else name), st.uid(), ty=ret)
        e = Ev("call", name, fi=fi, recv=recv, args=tuple(args), kw=kw, val=r, node=node, at=fr.fi, locks=st.locks, fn=fn, stack=st.stack)
        out = []
        quiet = fi is None and name in LOG_CALLS
        excs = list(self.raises(e) or []) if self.raises is not None and not quiet else []
        if self.try_raise and not quiet:
            for hs in st.tries:
                for h in hs:
                    if h in ("BaseException", "Exception"):
                        h = "?"
                    if h not in excs and h not in ("AssertionError", "KeyError", "AttributeError", "KeyboardInterrupt", "GeneratorExit", "asyncio.CancelledError") or (h in ("asyncio.CancelledError",) and h not in excs):
                        excs.append(h)
        for n in excs:
            s2 = st.fork()
            s2.emit(Ev("call", name, fi=fi, recv=recv, args=tuple(args), kw=kw, val=V("exc", n, 0), node=node, at=fr.fi, locks=st.locks, fn=fn, stack=st.stack))
            out.append((s2, Raised(self.raise_(s2, n, node, fr))))
        st.emit(e)
        # lock objects operated through an opaque method are handled by call_method
        if not quiet:
            self.escape(st, args, kw)
        out.append((st, r))
        return out

    def escape(self, st, args, kw):
        """A nested function handed to unknown code may run from now on: the outer variables it assigns are no longer known."""
        esc = st.store.get(("ESC",), ())
        for a in list(args) + list(kw.values()):
            if a.k == "func" and a.a[1] is not None and not a.a[0].is_lambda and a.a[0].locals[1] and a not in esc:
                esc = esc + (a,)
                st.store[("ESC",)] = esc
        for a in esc:
            for n in a.a[0].locals[1]:
                pf = a.a[1]
                while pf is not None and pf in st.frames:
                    pfi, pp = st.frames[pf]
                    if pfi is not None and not pfi.is_lambda and n in pfi.locals[0]:
                        st.store[("L", pf, n)] = V("call", "late:" + n, st.uid())
                        break
                    pf = pp

    def instantiate(self, ci, args, kw, node, st, fr):
        if self.is_enum(ci):
            if len(args) == 1 and is_const(args[0]):
                for m in ci.assigns:
                    v = self.enum_value(V("enum", ci, m))
                    if v is not None and v == args[0]:
                        return [(st, V("enum", ci, m))]
            r = V("app", "enumcast", V("class", ci), *args, ty=("c", ci))
            out = [(st, r)]
            if self.catches(st, ("ValueError", "Exception", "BaseException")) or (self.raises is not None and "ValueError" in (self.raises(Ev("call", ci.name, args=tuple(args), node=node, at=fr.fi)) or [])):
                s2 = st.fork()
                out.append((s2, Raised(self.raise_(s2, "ValueError", node, fr))))
            return out
        if any(isinstance(m, str) and (m in BUILTIN_EXC) for m in self.p.mro(ci)):
            return [(st, V("exc", ci.name, st.uid()))]
        st = st.fork()
        o = V("obj", ci, st.uid())
        fields = self.nt_fields(ci)
        if fields:
            dfl = {}
            for c in self.p.mro(ci):
                if isinstance(c, CI):
                    for n, x in c.assigns.items():
                        dfl.setdefault(n, (x, c.module))
            vals = {}
            flat = []
            for v in args:
                if v.k == "app" and v.a[0] == "star":
                    # Host(*x): fields are x's elements
                    for i, f in enumerate(fields[len(flat):]):
                        flat.append(self.index(v.a[1], const(i), st))
                    break
                flat.append(v)
            for n, v in zip(fields, flat):
                vals[n] = v
            for n, v in kw.items():
                if n != "**":
                    vals[n] = v
            for n in fields:
                if n not in vals and n in dfl:
                    v = self.const_eval(dfl[n][0], dfl[n][1])
                    vals[n] = v if v is not None else V("sym", "default:" + n)
            for n, v in vals.items():
                if v.ty is None and self.ty(v, st) is None:
                    t = self.p.attr_type(ci, n)
                    if t:
                        v = v.typed(t)
                st.store[("A", o, n)] = v
            st.emit(Ev("new", ci.name, args=tuple(args), kw=vals, val=o, node=node, at=fr.fi, locks=st.locks, fn=V("class", ci), stack=st.stack))
            return [(st, o)]
        init = self.p.find_method(ci, "__init__")
        excs = []
        e = Ev("new", ci.name, args=tuple(args), kw=kw, val=o, node=node, at=fr.fi, locks=st.locks, fn=V("class", ci), stack=st.stack)
        out = []
        st.emit(e)
        if isinstance(init, FI) and self.may_inline(init, st, None):
            for x, v in self.inline(init, o, None, args, kw, node, st, fr):
                out.append((x, v if isinstance(v, Raised) else o))
            return out
        if isinstance(init, FI):
            bound, _ = self.bind_args(init, o, args, kw, st, fr)
            e.kw = {n: v for n, v in bound.items() if v is not o}
        if self.raises is not None:
            for n in self.raises(e) or []:
                s2 = st.fork()
                out.append((s2, Raised(self.raise_(s2, n, node, fr))))
        out.append((st, o))
        return out

    def call_ext(self, d, args, kw, node, st, fr):
        last = d.split(".")[-1]
        n = len(args)
        if d in ("typing.cast", "cast") and n == 2:
            t = None
            if isinstance(node, ast.Call) and node.args:
                t = self.p.ann_type(node.args[0], fr.module)
            v = args[1]
            return [(st, v.typed(t) if t and self.ty(v, st) is None else v)]
        if d == "isinstance" and n == 2:
            if args[1].k == "tup":
                # any-of
                live, out = [st], []
                for c in args[1].a:
                    nxt = []
                    for x in live:
                        for y, b in self.branch(x, V("app", "isinstance", args[0], c)):
                            (out.append((y, TRUE)) if b else nxt.append(y))
                    live = nxt
                return out + [(x, FALSE) for x in live]
            v = V("app", "isinstance", args[0], args[1])
            t = self.truth(v, st)
            return [(st, const(t) if t is not None else v)]
        if d in ("dict", "collections.defaultdict", "collections.OrderedDict", "typing.DefaultDict", "typing.Dict"):
            df = None
            a = list(args)
            if last in ("defaultdict", "DefaultDict"):
                df = a.pop(0) if a else None
                if df is not None and is_none(df):
                    df = None
            pairs, complete = [(const(k), v) for k, v in kw.items() if k != "**"], "**" not in kw
            if a:
                its = self.items_of(V("app", "items", a[0]), st) if a[0].k == "obj" and a[0].a[0] == "dict" else None
                if its is None:
                    if a[0].k == "obj" and a[0].a[0] == "list":
                        its = self.items_of(a[0], st)
                    if its is None and df is not None:
                        st = st.fork()
                        o = self.new_dict(st, (), True, df)
                        return [(x, o) for x, _ in self.dict_method(o, "update", [a[0]], dict(kw), node, st, fr)]
                    if its is None:
                        r = V("app", "copy", a[0], ty=self.ty(a[0], st) or ("dict", None, None))
                        return [(st, r)]
                pairs = [(p.a[0], p.a[1]) for p in its if p.k == "tup"] + pairs
            st = st.fork()
            return [(st, self.new_dict(st, pairs, complete, df))]
        if d in ("list", "set", "tuple", "frozenset"):
            if not args:
                st = st.fork()
                return [(st, V("tup") if d == "tuple" else self.new_list([], st, "list" if d == "list" else "set"))]
            its = self.items_of(args[0], st)
            if its is not None:
                st = st.fork()
                return [(st, V("tup", *its) if d == "tuple" else self.new_list(its, st, "list" if d == "list" else "set"))]
            return [(st, V("app", d, args[0]))]
        if d in ("bytearray", "bytes", "object"):
            return [(st, V("app", d, *args, ty=("x", d)))]
        if d in PURE_FUNCS:
            if d == "len" and n == 1:
                its = self.items_of(args[0], st) if args[0].k in ("obj", "tup") else None
                if its is not None:
                    return [(st, const(len(its)))]
                if is_const(args[0]) and isinstance(cval(args[0]), (str, bytes)):
                    return [(st, const(len(cval(args[0]))))]
                v = V("app", "len", self.cont(args[0]))
                st = st.fork()
                st.emit(Ev("len", recv=args[0], val=v, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
                return [(st, v)]
            if d == "bool" and n == 1:
                t = self.truth(args[0], st)
                return [(st, const(t) if t is not None else V("app", "bool", args[0]))]
            if d in ("int", "float", "str") and n == 0:
                return [(st, const({"int": 0, "float": 0.0, "str": ""}[d]))]
            if d in ("int", "float", "str", "abs", "min", "max", "round", "sum") and n and all(is_const(x) for x in args) and d != "sum":
                try:
                    return [(st, const(getattr(builtins, d)(*[cval(x) for x in args])))]
                except Exception:  # noqa
                    pass
            if d in ("min", "max") and n == 2:
                args = sorted(args, key=repr_key)
            if d in ("any", "all") and n == 1 and args[0].k in ("obj", "app"):
                its = self.items_of(args[0], st)
                if its is not None:
                    ts = [self.truth(x, st) for x in its]
                    if d == "all" and all(t is True for t in ts):
                        return [(st, TRUE)]
                    if d == "all" and any(t is False for t in ts):
                        return [(st, FALSE)]
                    if d == "any" and any(t is True for t in ts):
                        return [(st, TRUE)]
                    if d == "any" and all(t is False for t in ts):
                        return [(st, FALSE)]
                    if len(its) <= 8:
                        # decide element by element
                        live, out = [st], []
                        want = d == "any"
                        for q in its:
                            nxt = []
                            for x in live:
                                for y, b in self.branch_v(x, q):
                                    if b == want:
                                        out.append((y, const(want)))
                                    else:
                                        nxt.append(y)
                            live = nxt
                        return out + [(x, const(not want)) for x in live]
                comp = self.rd(st, ("COMP", args[0]))
                return [(st, V("app", d, *(comp or (args[0],))))]
            r = V("app", d, *args)
            out = [(st, r)]
            if d in ("int", "float") and n and not is_const(args[0]):
                t = self.ty(args[0], st)
                if not (t and t[0] == "x" and t[1] in ("int", "float", "bool")) and not (t and t[0] == "c" and self.is_enum(t[1])):
                    ex = []
                    for name in ("ValueError", "TypeError"):
                        if self.catches(st, (name, "Exception", "BaseException")) or (self.raises is not None and name in (self.raises(Ev("call", d, args=tuple(args), node=node, at=fr.fi)) or [])):
                            ex.append(name)
                    for name in ex:
                        s2 = st.fork()
                        out.append((s2, Raised(self.raise_(s2, name, node, fr))))
            return out
        if d == "getattr" and n >= 2 and is_const(args[1]):
            return self.get_attr(args[0], cval(args[1]), st, fr, node)
        if d == "setattr" and n == 3 and is_const(args[1]):
            return self.set_attr(args[0], cval(args[1]), args[2], st, fr, node)
        if d == "next" and n:
            return self.opaque_call("next", None, None, args, kw, node, st, fr)
        if d.startswith(PURE_EXT) and not kw:
            return [(st, V("app", d, *args))]
        if last in BUILTIN_EXC or d in EXT_EXC:
            return [(st, V("exc", last if last in BUILTIN_EXC else d, st.uid()))]
        if d == "functools.partial" and args:
            return [(st, V("partial", args[0], tuple(args[1:])))]
        return self.opaque_call(d, None, None, args, kw, node, st, fr, ret=ext_ret(d))

    def call_method(self, b, name, fv, args, kw, node, st, fr):
        """Call of b.name where b.name is not a known repository method."""
        t = self.ty(b, st)
        n = len(args)
        if self.is_lock(b, st) and name in ("acquire", "release", "__enter__", "__exit__") and not (t[0] == "c"):
            st = st.fork()
            if name in ("acquire", "__enter__"):
                self.acquire(b, st, node, fr, "call")
                return [(st, TRUE)]
            self.release(b, st, node, fr, "call")
            return [(st, NONE)]
        isdict = t is not None and t[0] == "dict"
        islist = t is not None and t[0] == "list"
        if isdict or (b.k == "obj" and b.a[0] == "dict"):
            r = self.dict_method(b, name, args, kw, node, st, fr)
            if r is not None:
                return r
        if islist or (b.k == "obj" and b.a[0] in ("list", "set")):
            r = self.list_method(b, name, args, kw, node, st, fr)
            if r is not None:
                return r
        if name in ("items", "keys", "values") and n == 0:
            return [(st, V("app", name, b))]
        if name in ("copy",) and n == 0:
            return [(st, V("app", "copy", b))]
        if name in PURE_METHODS and not (name == "join" and not is_const(b) and not (t and t == ("x", "str")) and b.k != "fstr"):
            if is_const(b) and all(is_const(a) for a in args) and isinstance(cval(b), str) and name in ("lower", "upper", "strip", "encode"):
                try:
                    return [(st, const(getattr(cval(b), name)(*[cval(a) for a in args])))]
                except Exception:  # noqa
                    pass
            return [(st, V("app", "m:" + name, b, *args))]
        return self.opaque_call(name, None, b, args, kw, node, st, fr, fn=fv)

    def mut(self, st, b):
        st.facts.pop(b, None)
        for f in [f for f in st.facts if (f.k == "cmp" and f.a[0] == "in" and f.a[2] == b)
                  or any(x.k == "app" and x.a[0] in ("len", "more", "ranged") and mentions(x, b) for x in subterms(f))]:
            st.facts.pop(f, None)

    def dict_method(self, b, name, args, kw, node, st, fr):
        n = len(args)
        if name in ("items", "keys", "values") and n == 0:
            return [(st, V("app", name, b))]
        if name == "copy" and n == 0:
            if b.k == "obj" and self.rd(st, ("KC", b)):
                st = st.fork()
                ks = self.rd(st, ("K", b)) or ()
                return [(st, self.new_dict(st, [(k, self.rd(st, ("I", b, k))) for k in ks]))]
            return [(st, V("app", "copy", b, ty=self.ty(b, st)))]
        if name == "get" and n in (1, 2):
            d = args[1] if n == 2 else kw.get("default", NONE)
            if b.k == "obj" and self.rd(st, ("KC", b)):
                ks = self.rd(st, ("K", b)) or ()
                if all(self.is_value(x) for x in ks) and len(ks) <= 16:
                    out, live = [], [st]
                    for key in ks:
                        nxt = []
                        for x in live:
                            for y, bb in self.branch(x, V("cmp", "==", args[0], key)):
                                if bb:
                                    out.append((y, self.rd(y, ("I", b, key)) or V("item", b, key)))
                                else:
                                    nxt.append(y)
                        live = nxt
                    return out + [(x, d) for x in live]
            out = []
            for x, bb in self.branch(st, V("cmp", "in", args[0], b)):
                if bb:
                    v = self.rd(x, ("I", b, args[0]))
                    out.append((x, v if v is not None else V("item", b, args[0])))
                else:
                    out.append((x, d))
            return out
        if name == "pop" and n in (1, 2):
            out = []
            for x, bb in self.branch(st, V("cmp", "in", args[0], b)):
                if bb:
                    v = self.rd(x, ("I", b, args[0]))
                    v = v if v is not None else V("item", b, args[0])
                    x = x.fork()
                    for y, r in self.del_item(b, args[0], x, node, fr):
                        out.append((y, r if isinstance(r, Raised) else v))
                elif n == 2:
                    out.append((x, args[1]))
                elif self.dict_errors or self.catches(x, ("KeyError", "LookupError")):
                    x = x.fork()
                    out.append((x, Raised(self.raise_(x, "KeyError", node, fr))))
            return out
        if name == "setdefault" and n in (1, 2):
            out = []
            for x, bb in self.branch(st, V("cmp", "in", args[0], b)):
                if bb:
                    v = self.rd(x, ("I", b, args[0]))
                    out.append((x, v if v is not None else V("item", b, args[0])))
                else:
                    x = x.fork()
                    d = args[1] if n == 2 else NONE
                    self.set_item(b, args[0], d, x, fr, node)
                    out.append((x, d))
            return out
        if name == "update":
            st = st.fork()
            src = args[0] if args else None
            its = None
            if src is not None:
                its = self.items_of(V("app", "items", src), st) if src.k == "obj" and src.a[0] == "dict" else None
            if (src is None or its is not None) and "**" not in kw:
                for p in its or []:
                    self.set_item(b, p.a[0], p.a[1], st, fr, node)
                for k, v in kw.items():
                    self.set_item(b, const(k), v, st, fr, node)
            else:
                self.mut(st, b)
                st.store.pop(("KC", b), None)
                st.store[("KC", b)] = None
                if b.k == "obj":
                    st.store[("UPD", b)] = src
                st.emit(Ev("call", "update", recv=b, args=tuple(args), kw=kw, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
            return [(st, NONE)]
        if name in ("clear", "popitem"):
            st = st.fork()
            self.mut(st, b)
            if b.k == "obj" and name == "clear":
                st.store[("K", b)] = ()
            st.emit(Ev("call", name, recv=b, args=tuple(args), kw=kw, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
            return [(st, V("call", name, st.uid()))]
        if name == "__contains__" and n == 1:
            return [(st, V("cmp", "in", args[0], b))]
        return None

    def list_method(self, b, name, args, kw, node, st, fr):
        if name == "copy" and not args:
            its = self.items_of(b, st)
            if its is not None:
                st = st.fork()
                return [(st, self.new_list(its, st))]
            return [(st, V("app", "copy", b, ty=self.ty(b, st)))]
        if name in ("append", "add", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "discard", "update", "popleft", "appendleft"):
            st = st.fork()
            c = self.rd(st, ("C", b)) if b.k == "obj" else None
            r = NONE
            if c is not None:
                c = list(c)
                try:
                    if name == "append":
                        c.append(args[0])
                    elif name == "add":
                        if args[0] not in c:
                            c.append(args[0])
                    elif name in ("extend", "update"):
                        its = self.items_of(args[0], st)
                        c = c + its if its is not None else None
                    elif name == "insert" and is_const(args[0]):
                        c.insert(cval(args[0]), args[1])
                    elif name == "pop":
                        if not c:
                            s2 = st
                            return [(s2, Raised(self.raise_(s2, "IndexError", node, fr)))]
                        r = c.pop(cval(args[0]) if args else -1)
                    elif name == "popleft":
                        r = c.pop(0)
                    elif name in ("remove", "discard"):
                        if args[0] in c:
                            c.remove(args[0])
                        else:
                            c = None
                    elif name == "clear":
                        c = []
                    elif name == "reverse":
                        c.reverse()
                    elif name == "sort":
                        pass
                    else:
                        c = None
                except Exception:  # noqa
                    c = None
                st.store[("C", b)] = tuple(c) if c is not None else None
            elif name in ("pop", "popleft"):
                r = V("call", "pop", st.uid(), ty=self.elem_type(b, st))
            if b.k == "obj" and c is None:
                st.store[("C", b)] = None
                self.gstore.pop(("C", b), None)
            self.mut(st, b)
            if c is None and name in ("append", "add", "insert"):
                st.facts[b] = True
            st.emit(Ev("call", name, recv=b, args=tuple(args), kw=kw, val=r, node=node, at=fr.fi, locks=st.locks, stack=st.stack))
            return [(st, r)]
        return None


_KEYC = {}


def repr_key(v):
    r = _KEYC.get(v)
    if r is None:
        r = ("1" if v.k in ("const", "enum", "class") else "0") + repr(v)
        if len(_KEYC) > 200000:
            _KEYC.clear()
        _KEYC[v] = r
    return r


_BUILTIN = {x.__name__: x for x in (dict, list, str, int, float, bool, tuple, bytes, set)}


def _volatile(f):
    """Facts that a loop iteration may change behind our back (reads of state)."""
    return any(x.k in ("attr", "item", "sym", "app", "obj") for x in subterms(f))


def _as_load(t):
    return ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
FOLD = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b if not isinstance(a, str) and not isinstance(b, str) else None or a * b,
        "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b if not isinstance(a, str) else _bad(),
        "**": lambda a, b: a ** b if abs(b) < 200 else _bad(), "<<": lambda a, b: a << b if b < 200 else _bad(), ">>": lambda a, b: a >> b,
        "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}


def _bad():
    raise ValueError
