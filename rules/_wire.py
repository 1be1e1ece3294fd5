"""Byte-level operations of a path: what is written to or read from which buffer, in which order, with which type and value."""
from vsa.model import FI
from vsa.q import *
from vsa.rule import METRICS, Anchor
from vsa.walk import St

BUF = ["write", "read", "read_bytes", "append", "advance", "reset", "crc32", "set_pos", "get_pos", "can_read", "with_pos", "remaining",
       "expand_to"]
PRIM = ["write", "read", "set", "get", "buffer"]


class Op:
    __slots__ = ("k", "buf", "type", "val", "pos", "i", "e", "res", "prim")

    def __init__(self, k, buf, i, e, type=None, val=None, pos=None, prim=None):
        self.k, self.buf, self.i, self.e, self.type, self.val, self.pos, self.prim = k, buf, i, e, type, val, pos, prim
        self.res = e.val

    def __repr__(self):
        return "%s(%s %s %s @%s)" % (self.k, self.buf, self.type, self.val, self.pos)


class Wire:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.bb, self.tp = r.cls("ByteBuffer"), r.cls("TypePrimitive")
        for m in ("write", "read", "read_bytes", "append", "crc32", "reset"):
            r.method("ByteBuffer", m)
        for m in ("write", "read", "set", "get"):
            r.method("TypePrimitive", m)
        self.opaque = METRICS | {"ByteBuffer." + m for m in BUF} | {"TypePrimitive." + m for m in PRIM}
        self.w = self.walker()
        self._sz = {}
        self._built = {}

    def walker(self, **kw):
        kw["opaque"] = self.opaque | kw.get("opaque", set())
        return self.r.walker(**kw)

    def built(self, cls, **kw):
        """Stores of every normal construction of cls (self is the symbol self)."""
        if cls not in self._built:
            self._built[cls] = [st for _, st in self.r.construct(self.w, self.r.cls(cls), **kw)]
            if not self._built[cls]:
                raise Anchor("%s cannot be constructed" % cls)
        return self._built[cls]

    def fixed(self, v, cls):
        """v with attributes of self resolved to what construction of cls stored there (where all constructions agree)."""
        got = {_res(v, st.store) for st in self.built(cls)}
        return got.pop() if len(got) == 1 else v

    def size(self, t):
        """Term for the byte size of primitive type t."""
        if t not in self._sz:
            f = self.r.func("vtelem.enums.primitive", "get_size")
            arg = t.typed(("c", self.r.cls("Primitive"))) if t.ty is None and not is_const(t) else t
            ps = [p for p in self.w.call_value(V("func", f, None), [arg]) if p.kind != "exc"]
            self._sz[t] = ps[0].val if len(ps) == 1 else V("app", "size", t)
        return self._sz[t]

    def isbuf(self, v, p):
        t = v.ty or self.w.ty(v, p.st)
        if t and t[0] == "c":
            return self.p.is_sub(t[1], self.bb)
        return False

    def isprim(self, v, p):
        t = v.ty or self.w.ty(v, p.st)
        return bool(t and t[0] == "c" and self.p.is_sub(t[1], self.tp))

    def ops(self, p, cls=None, events=None):
        fx = (lambda v: self.fixed(v, cls)) if cls else (lambda v: v)
        types, data, out = {}, {}, []

        def ptype(x):
            if x in types:
                return types[x]
            return fx(V("attr", x, "type"))
        failed = {e.val for e in (events or p.events) if e.kind == "assume" and e.pol is False}
        for i, e in enumerate(events or p.events):
            if e.kind == "write" and e.name == "type":
                types[e.recv] = e.val
            elif e.kind == "write" and e.name == "data" and not self.isbuf(e.recv, p):
                data[e.recv] = e.val
            if e.kind != "call" or e.recv is None:
                continue
            n, rv = e.name, e.recv
            onbuf = self.isbuf(rv, p)
            if n == "set" and not onbuf and e.args and (e.fi is None or e.fi.cls is self.tp):
                if e.val not in failed:
                    data[rv] = e.args[0]
            elif n == "write" and onbuf:
                out.append(Op("w", rv, i, e, e.arg(0, "inst"), e.arg(1, "data")))
            elif n == "write" and e.args and self.isbuf(e.args[0], p) or n == "write" and e.kw.get("buf") is not None and self.isbuf(e.kw["buf"], p):
                b = e.arg(0, "buf")
                out.append(Op("w", b, i, e, ptype(rv), data.get(rv, V("attr", rv, "data")), e.arg(1, "pos"), rv))
            elif n == "read" and onbuf:
                out.append(Op("r", rv, i, e, e.arg(0, "inst")))
            elif n == "read" and e.args and self.isbuf(e.args[0], p):
                out.append(Op("r", e.args[0], i, e, ptype(rv), None, e.arg(1, "pos"), rv))
            elif n == "append" and onbuf:
                out.append(Op("a", rv, i, e, None, e.arg(0, "other"), e.arg(1, "data_len")))
            elif n in ("read_bytes", "advance", "reset", "crc32", "set_pos", "get_pos", "can_read", "expand_to") and onbuf:
                out.append(Op({"read_bytes": "rb"}.get(n, n), rv, i, e, e.args[0] if e.args else None))
        return out

    def subst(self, v, ops):
        """v with the results of writes replaced by the sizes they write."""
        m = {}
        for o in ops:
            if o.res is None:
                continue
            if o.k == "w" and o.type is not None:
                m[o.res] = self.size(o.type)
            elif o.k == "a":
                m[o.res] = o.pos if o.pos is not None and not is_none(o.pos) else V("app", "len", o.val)
        return _sub(v, m)


def _sub(v, m):
    if not isinstance(v, V):
        return tuple(_sub(x, m) for x in v) if isinstance(v, tuple) else v
    if v in m:
        return m[v]
    if not any(isinstance(x, (V, tuple)) for x in v.a):
        return v
    return V(v.k, *[_sub(x, m) if isinstance(x, (V, tuple)) else x for x in v.a], ty=v.ty)


def _res(v, store):
    if v.k == "attr":
        b = _res(v.a[0], store)
        return store.get(("A", b, v.a[1]), V("attr", b, v.a[1]))
    if v.k == "item":
        b = _res(v.a[0], store)
        return store.get(("I", b, v.a[1].a[1] if False else v.a[1]), V("item", b, v.a[1]))
    return v


def ge_facts(p, upto=None):
    """Terms known to be >= 0 on the path (integers)."""
    out = []
    for i, v, pol, e in assumes(p, upto):
        if v.k != "cmp":
            continue
        op, a, b = v.a
        if op == "<":
            out.append(lin_sub(b, V("bin", "+", a, const(1))) if pol else lin_sub(a, b))
        elif op == "<=":
            out.append(lin_sub(b, a) if pol else lin_sub(a, V("bin", "+", b, const(1))))
        elif op == "==" and pol:
            out += [lin_sub(a, b), lin_sub(b, a)]
    return out


def known_ge(p, term, upto=None, sub=None):
    """Is term >= 0 implied by one comparison of the path?"""
    t, c = lin(term)
    if not t:
        return c >= 0
    for i, v, pol, e in assumes(p, upto):
        if v.k != "cmp" or v.a[0] not in ("<", "<=", "=="):
            continue
        op, a, b = v.a
        if sub:
            a, b = sub(a), sub(b)
        cands = []
        one = const(1)
        if op == "<":
            cands.append(V("bin", "-", b, V("bin", "+", a, one)) if pol else V("bin", "-", a, b))
        elif op == "<=":
            cands.append(V("bin", "-", b, a) if pol else V("bin", "-", a, V("bin", "+", b, one)))
        elif pol:
            cands += [V("bin", "-", a, b), V("bin", "-", b, a)]
        for x in cands:
            tx, cx = lin(x)
            if tx == t and cx <= c:
                return True
    return False
