"""Whole-program call graph and per-function effects, from one shallow walk of every function."""
import ast

from .model import CI, FI
from .values import V, is_const, cval
from .walk import Ev


class Graph:
    def __init__(self, r):
        self.p = r.p
        self.evs = {}            # FI -> [Ev]  (deduplicated)
        self.trunc = []
        todo = list(self.p.functions)
        seen = set(todo)
        while todo:
            f = todo.pop()
            w = r.walker(opaque=(), inline_pred=lambda fi, st: (fi.is_property or fi.is_ctxmgr) and not fi.is_async, loop=(0, 1), while_max=1,
                         try_raise=True, max_paths=3000, max_depth=4, keep_cut=True)
            ps = w.entry_any(f)
            if w.truncated:
                w = r.walker(opaque=(), inline_pred=lambda fi, st: fi.is_property, loop=(1,), while_max=1, try_raise=False, keep_cut=True,
                             max_paths=6000, max_depth=3)
                ps = w.entry_any(f)
                if w.truncated:
                    self.trunc.append(f.qual)
            d, out = set(), []
            for q in ps:
                for e in q.events:
                    if e.kind == "assume":
                        continue
                    k = (e.kind, e.name, e.fi, id(e.node), tuple(l[0] for l in e.locks), e.recv, e.args)
                    if k not in d:
                        d.add(k)
                        out.append(e)
                        for v in list(e.args) + list(e.kw.values()) + [e.val]:
                            if isinstance(v, V) and v.k == "func" and v.a[0] not in seen and v.a[0].is_lambda:
                                seen.add(v.a[0])
                                todo.append(v.a[0])
                            # nested functions used as values are in p.functions already
            self.evs[f] = out
        self._slots()
        self._edges()

    # -- what callables may a slot (attribute, dict entry, parameter) hold
    def _slots(self):
        self.slot = {}
        flows = []               # (slot, source slot or FI)
        for f, evs in self.evs.items():
            for e in evs:
                if e.kind == "write":
                    self._flow(("attr", e.name), e.val, f, flows)
                elif e.kind == "store" and is_const(e.args[0] if e.args else V("x")):
                    self._flow(("key", cval(e.args[0])), e.val, f, flows)
                elif e.kind in ("call", "new", "enter"):
                    fi = e.fi
                    if e.kind == "new":
                        c = e.fn.a[0] if e.fn is not None and e.fn.k == "class" else None
                        fi = self.p.find_method(c, "__init__") if c is not None else None
                    if isinstance(fi, FI):
                        ps = fi.params
                        if fi.cls is not None and fi.parent is None and not fi.is_static:
                            ps = ps[1:]
                        for n, a in list(zip(ps, e.args)) + list(e.kw.items()):
                            self._flow(("param", fi, n), a, f, flows)
        for f in self.p.functions:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Dict):
                    for k, v in zip(x.keys, x.values):
                        if isinstance(k, ast.Constant):
                            g = self._named(v, f)
                            if g is not None:
                                flows.append((("key", k.value), g))
        changed = True
        while changed:
            changed = False
            for dst, src in flows:
                cur = self.slot.setdefault(dst, set())
                add = {src} if isinstance(src, FI) else self.slot.get(src, set())
                if not add <= cur:
                    cur |= add
                    changed = True

    def _named(self, x, f):
        """FI denoted by `self.method`, a nested function's or a module function's name."""
        top = f
        while top.parent is not None:
            top = top.parent
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and top.cls is not None and top.params \
                and x.value.id == top.params[0]:
            m = self.p.find_method(top.cls, x.attr)
            return m if isinstance(m, FI) else None
        if isinstance(x, ast.Name):
            g = f
            while g is not None:
                if x.id in g.nested:
                    return g.nested[x.id]
                if x.id in g.locals[0]:
                    return None
                g = g.parent
            r = self.p.lookup(f.module, x.id)
            if r is not None and r[0] == "def":
                return r[1]
        return None

    def _flow(self, dst, v, f, flows):
        if not isinstance(v, V):
            return
        if v.k in ("func", "bound"):
            flows.append((dst, v.a[0]))
        elif v.k == "sym":
            g = f
            while g is not None:
                if v.a[0] in g.params:
                    flows.append((dst, ("param", g, v.a[0])))
                    return
                g = g.parent
        elif v.k == "attr":
            flows.append((dst, ("attr", v.a[1])))
        elif v.k == "item" and is_const(v.a[1]):
            flows.append((dst, ("key", cval(v.a[1]))))
        elif v.k == "partial":
            self._flow(dst, v.a[0], f, flows)

    def targets(self, e, f):
        """Functions a call event may reach."""
        out = set()
        if e.kind == "new":
            c = e.fn.a[0] if e.fn is not None and e.fn.k == "class" else None
            m = self.p.find_method(c, "__init__") if c is not None else None
            if isinstance(m, FI):
                out.add(m)
            return out
        if e.fi is not None:
            out.add(e.fi)
            c = e.fi.cls
            if c is not None and e.fi.parent is None and e.recv is not None and e.recv.k != "super":
                t = e.recv.ty
                base = t[1] if t and t[0] == "c" and self.p.is_sub(t[1], c) else c
                for s in self.p.subclasses.get(base, []):
                    if e.fi.name in s.methods:
                        out.add(s.methods[e.fi.name])
            return out
        if e.kind == "call" and e.fn is not None:
            v = e.fn
            if v.k == "attr":
                out |= self.slot.get(("attr", v.a[1]), set())
            elif v.k == "item" and is_const(v.a[1]):
                out |= self.slot.get(("key", cval(v.a[1])), set())
            elif v.k == "sym":
                g = f
                while g is not None:
                    if v.a[0] in g.params:
                        out |= self.slot.get(("param", g, v.a[0]), set())
                        break
                    g = g.parent
        return out

    def _edges(self):
        self.calls = {}          # FI -> [(Ev, set FI)]
        self.callers = {}
        for f, evs in self.evs.items():
            lst = []
            for e in evs:
                if e.kind in ("call", "new") or (e.kind == "enter"):
                    t = self.targets(e, f)
                    if t:
                        lst.append((e, t))
                        for g in t:
                            self.callers.setdefault(g, set()).add(f)
            self.calls[f] = lst

    def slot_args(self, f, param):
        """[(caller, value)] passed for `param` of f at its known call sites."""
        out = []
        if param not in f.params:
            return out
        i = f.params.index(param) - (1 if f.cls is not None and f.parent is None and not f.is_static else 0)
        if i < 0:
            return out
        for c, lst in self.calls.items():
            for e, ts in lst:
                if f in ts:
                    a = e.arg(i, param)
                    if a is not None:
                        out.append((c, a))
        return out

    def reach(self, roots):
        out, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.add(f)
            for _, t in self.calls.get(f, []):
                todo.extend(t)
            todo.extend(f.nested.values())
        return out


def lock_name(v, p, ty=None):
    """Class-level identity of a lock value."""
    if v.k == "attr" and v.a[1] == "lock":
        b = v.a[0]
        t = b.ty
        if t and t[0] == "c":
            return t[1]
    return None
