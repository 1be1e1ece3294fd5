"""Abstract values ("origins"): hashable terms describing where a value came from."""


class V:
    __slots__ = ("k", "a", "ty", "_h")

    def __init__(self, k, *a, ty=None):
        self.k, self.a, self.ty = k, a, ty
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self._h == o._h and self.k == o.k and self.a == o.a)

    def __ne__(self, o):
        return not self == o

    def typed(self, ty):
        if ty is None:
            return self
        v = V.__new__(V)
        v.k, v.a, v._h, v.ty = self.k, self.a, self._h, ty
        return v

    def __repr__(self):
        return show(self)


def const(x):
    return V("const", type(x).__name__, x)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(v, *x):
    if v.k != "const":
        return False
    return not x or any(type(v.a[1]) is type(y) and v.a[1] == y for y in x)


def is_none(v):
    return v.k == "const" and v.a[1] is None


def cval(v, default=None):
    return v.a[1] if v.k == "const" else default


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
        return getattr(v, "qual", None) or getattr(v, "name", None) or str(v)
    if d > 6:
        return "..."
    k, a = v.k, v.a
    if k == "const":
        return repr(a[1])
    if k == "sym":
        return a[0]
    if k == "attr":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if k == "item":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if k == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == "cmp":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == "not":
        return "not %s" % show(a[0], d + 1)
    if k == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if k == "call":
        return "%s()#%s" % (a[0], a[1])
    if k == "obj":
        return "<%s#%s>" % (a[0], a[1])
    if k == "enum":
        return "%s.%s" % (a[0].name, a[1])
    if k in ("func",):
        return a[0].qual
    if k == "bound":
        return "%s.%s" % (show(a[1], d + 1), a[0].name)
    if k == "class":
        return a[0].name
    if k == "ext":
        return a[0]
    if k == "tup":
        return "(%s)" % ", ".join(show(x, d + 1) for x in a)
    if k == "elem":
        return "%s[#%s]" % (show(a[0], d + 1), a[1])
    if k == "key":
        return "key#%s(%s)" % (a[1], show(a[0], d + 1))
    if k == "fstr":
        return "f'%s'" % "".join(cval(x) if is_const(x) and isinstance(cval(x), str) else "{%s}" % show(x, d + 1) for x in a)
    return "%s%s" % (k, show(tuple(a), d + 1))


def subterms(v):
    """All V sub-terms (including v)."""
    out, st = [], [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            out.append(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def mentions(v, w):
    return any(x == w for x in subterms(v))


# -- linear normal form over +,-,*const : {atom: coef}, const
def lin(v):
    if v.k == "const" and isinstance(v.a[1], (int, float)) and not isinstance(v.a[1], bool):
        return {}, v.a[1]
    if v.k == "bin":
        op, a, b = v.a
        if op in ("+", "-"):
            la, ca = lin(a)
            lb, cb = lin(b)
            s = 1 if op == "+" else -1
            r = dict(la)
            for t, c in lb.items():
                r[t] = r.get(t, 0) + s * c
                if r[t] == 0:
                    del r[t]
            return r, ca + s * cb
        if op == "*":
            la, ca = lin(a)
            lb, cb = lin(b)
            if not la:
                return {t: c * ca for t, c in lb.items() if c * ca}, ca * cb
            if not lb:
                return {t: c * cb for t, c in la.items() if c * cb}, ca * cb
    if v.k == "app" and v.a[0] == "neg":
        la, ca = lin(v.a[1])
        return {t: -c for t, c in la.items()}, -ca
    return {v: 1}, 0


def lin_eq(a, b):
    return lin(a) == lin(b)


def lin_sub(a, b):
    return lin(V("bin", "-", a, b))
