"""E03: a channel only ever holds values valid for its type."""
from rules._daemon import *
from vsa.walk import St

SELF = V("sym", "self")


def strip(v, p, data):
    """The value stored is the one given, possibly converted to the type's value type."""
    if v == data:
        return True
    for e in p.events:
        if e.kind in ("call", "new") and e.val == v and len(e.args) == 1 and not e.kw:
            return strip(e.args[0], p, data)
    if v.k == "app" and v.a[0] in ("int", "float", "bool") and len(v.a) == 2:
        return strip(v.a[1], p, data)
    return False


def is_type(v):
    """A value type taken from the primitive's own type."""
    return any(x.k == "attr" and x.a[0] == SELF and x.a[1] == "type" for x in subterms(v))


def check(r):
    r.rule("On every path of TypePrimitive.set (and of an override): success is reported exactly when the value is stored; before it is stored it was established that the value is an instance of the type's value type and that the type's "
           "validation accepts it; what is stored is the value given (or its conversion) and the time of setting; a path reporting failure writes nothing and calls nothing that could. "
           "add(x) is one set of the current value plus x at the same time, returning its result. Nothing else writes the value of a typed value, except its constructor and decoding.")
    r.assume("A primitive type's validation accepts what its format can hold: decided per type under W03.")
    T = r.cls("TypePrimitive")
    setters = [f for f in r.p.functions if f.name == "set" and f.cls is not None and r.p.is_sub(f.cls, T)]
    base = r.method("TypePrimitive", "set")
    n = 0
    for f in setters:
        data = V("sym", f.params[1])
        tm = V("sym", f.params[2]) if len(f.params) > 2 else NONE
        for p in r.paths(f, r.walker(opaque=QUIET | ({"TypePrimitive.set"} if f is not base else set()))):
            if p.kind == "exc":
                continue
            wr = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == SELF]
            vals = [(i, e) for i, e in wr if e.name == "data"]
            if p.val is None or not (is_const(p.val) or p.facts.get(p.val) is not None):
                deleg = [e for e in p.events if e.kind == "call" and e.fi is base and e.val == p.val]
                r.ob("result", f.qual, True if deleg else None, "result %s" % show(p.val), f)
                continue
            ok = bool(cval(p.val)) if is_const(p.val) else p.facts.get(p.val)
            if not ok:
                r.ob("failure-changes-nothing", f.qual, not wr, "a refused value changes %s" % (wr[0][1].name if wr else ""), wr[0][1] if wr else f)
                cbs = [e for e in p.events if e.kind == "call" and (e.name == "changed_cb" or e.fn is not None and e.fn == V("attr", SELF, "changed_cb"))]
                r.ob("failure-changes-nothing", f.qual, not cbs, "a refused value is reported as a change", cbs[0] if cbs else f)
                inst = [pol for _, v, pol, _e in assumes(p) if v.k == "app" and v.a[0] == "isinstance" and v.a[1] == data]
                val = [pol for _, v, pol, _e in assumes(p) if any(e.kind == "call" and e.name == "validate" and e.val == v for e in p.events)]
                r.ob("valid-accepted", f.qual, (False in inst or False in val) or (None if not inst or not val else False), "a value of the right type and within the limits is refused", f)
                continue
            n += 1
            r.ob("success-stores", f.qual, len(vals) >= 1, "success is reported without storing the value", f)
            if not vals:
                continue
            i, e = vals[-1]
            r.ob("stores-value", f.qual, strip(e.val, p, data), "what is stored is %s" % show(e.val), e)
            typed = any(j < vals[0][0] and pol and (v.k == "app" and v.a[0] == "isinstance" and v.a[1] == data and is_type(v.a[2]) or
                        v.k == "cmp" and v.a[0] in ("is", "==") and any(x.k == "app" and x.a[0] == "type" and x.a[1] == data for x in v.a[1:]) and any(is_type(x) for x in v.a[1:])) for j, v, pol, _e in assumes(p))
            r.ob("type-checked", f.qual, typed, "a value is stored without checking that it is of the type's value type", vals[0][1])
            vs = {x.val: x for x in p.events if x.kind == "call" and x.name == "validate"}
            ok = any(j < vals[0][0] and pol and v in vs and vs[v].args and vs[v].args[-1] == data and any(is_type(a) for a in vs[v].args + ((vs[v].recv,) if vs[v].recv is not None else ()))
                     for j, v, pol, _e in assumes(p))
            inline = any(j < vals[0][0] and v.k == "cmp" and v.a[0] in ("<", "<=") and mentions(v, data) for j, v, pol, _e in assumes(p))
            r.ob("limits-checked", f.qual, True if ok else None if inline else False, "a value is stored without checking it against the type's limits", vals[0][1])
            ts = [e for _, e in wr if e.name == "last_set"]
            none = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == tm and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            r.ob("time-stored", f.qual, len(ts) == 1 and (ts[0].val == tm or none and is_const(ts[0].val)), "the time of the set is not stored", ts[0] if ts else f)
    # add
    f = r.method("TypePrimitive", "add")
    x, tm = (V("sym", a) for a in f.params[1:3])
    for p in r.paths(f, r.walker(opaque=QUIET | {"TypePrimitive.set"})):
        if p.kind == "exc":
            continue
        cs = [e for e in p.events if e.kind == "call" and e.fi is base]
        wr = [e for e in p.events if e.kind == "write" and e.recv == SELF and e.name in ("data", "last_set")]
        r.ob("add-is-set", f.qual, len(cs) == 1 and not wr, "adding sets the value %d times%s" % (len(cs), ", directly" if wr else ""), f)
        if len(cs) != 1:
            continue
        a = cs[0].arg(0, base.params[1])
        cur = V("attr", SELF, "data")
        ok = a is not None and a.k == "bin" and a.a[0] == "+" and {a.a[1], a.a[2]} == {cur, x} and (p.val == cs[0].val)
        num = lin_eq(a, V("bin", "+", cur, x)) if a is not None and not ok else False
        r.ob("add-is-sum", f.qual, ok or bool(num) and p.val == cs[0].val, "adding sets %s" % show(a), cs[0])
        r.ob("add-time", f.qual, cs[0].arg(1, base.params[2]) == tm, "adding sets the value at another time", cs[0])
    # constructor
    init = r.method("TypePrimitive", "__init__")
    for p in r.paths(init, r.walker()):
        if p.kind == "exc":
            continue
        v = p.st.store.get(("A", SELF, "data"))
        made = [e for e in p.events if e.kind in ("call", "new") and e.val == v and not e.args]
        r.ob("starts-valid", init.qual, bool(made) and any(mentions(e.fn, V("sym", init.params[1])) or e.recv is not None and mentions(e.recv, V("sym", init.params[1])) for e in made) or (None if v is not None and v.k != "const" else False),
             "a typed value starts as %s" % show(v), init)
    # other writers
    g = r.graph()
    w = r.walker()
    own = {init, base, r.method("TypePrimitive", "read")} | set(setters)
    for fn, evs in g.evs.items():
        for e in evs:
            if e.kind in ("write", "delattr") and e.name == "data" and e.recv is not None:
                t = w.ty(e.recv, St())
                c = t[1] if t and t[0] == "c" and not isinstance(t[1], str) else fn.cls if e.recv == SELF else None
                if c is not None and r.p.is_sub(c, T):
                    top = fn
                    while top.parent is not None:
                        top = top.parent
                    r.ob("only-writers", fn.qual, top in own or r.helper_of(top, own), "the value of a channel is changed without validation", e)
            if e.kind in ("write",) and e.name == "type" and e.recv == SELF and fn.cls is not None and r.p.is_sub(fn.cls, T):
                r.ob("type-fixed", fn.qual, fn is init or r.helper_of(fn, {init}), "the type of a channel changes", e)
    r.require("type-checked", "limits-checked", "failure-changes-nothing", "add-is-sum", "stores-value", "time-stored", "only-writers")
