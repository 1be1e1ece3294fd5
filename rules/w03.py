"""W03: primitive tables agree with the binary encoding."""
import struct

from rules._wire import *

INTS = "bBhHiIlLqQ"


def check(r):
    r.rule("The primitive table is constant-folded from source and every entry compared with the struct module's definition of its format code; "
           "on every path on which TypePrimitive.set accepts a value for a type, the path's comparisons bound the value by the format's limits.")
    W = Wire(r)
    w = r.walker()
    P = r.cls("Primitive")
    prim = "vtelem.enums.primitive"
    fs = {k: r.func(prim, n) for k, n in (("fmt", "get_fstring"), ("size", "get_size"), ("name", "get_name"))}
    names = {}
    kinds = {}
    members = [m for m in P.assigns if m.isupper() or not m.startswith("_")]
    for m in members:
        ev = V("enum", P, m)
        got = {}
        for k, f in fs.items():
            ps = [p for p in r.call(w, V("func", f, None), [ev])]
            got[k] = cval(ps[0].val) if len(ps) == 1 and ps[0].val is not None and is_const(ps[0].val) else None
        code = got["fmt"]
        if not isinstance(code, str) or got["size"] is None:
            r.ob("entry", m, None, "table entry %s not understood" % m, P.name)
            continue
        try:
            n = struct.calcsize("!" + code)
        except struct.error:
            r.ob("format", m, False, "%s has no valid format: %r" % (m, code), "vtelem/enums/primitive.py")
            continue
        r.ob("format", m, len(code) == 1, "%s is packed as more than one value: %r" % (m, code), "vtelem/enums/primitive.py")
        kind = "int" if code in INTS else "float" if code in "efd" else "bool" if code == "?" else "?"
        kinds[m] = (kind, code)
        r.ob("size", m, got["size"] == n, "%s declares %s bytes, its format has %d" % (m, got["size"], n), "vtelem/enums/primitive.py")
        r.ob("name-unique", m, got["name"] not in names, "%s and %s have the same name" % (m, names.get(got["name"])), "vtelem/enums/primitive.py")
        names[got["name"]] = m
        td = r.func(prim, "to_dict")
        lo, hi = (0, 0)
        if kind == "int":
            sg = code.islower()
            lo, hi = (-(2 ** (8 * n - 1)), 2 ** (8 * n - 1) - 1) if sg else (0, 2 ** (8 * n) - 1)
        for p in r.call(w, V("func", td, None), [ev]):
            if p.kind == "exc":
                continue
            get = lambda k: p.st.store.get(("I", p.val, const(k)), p.st.store.get(("I", p.val, k)))
            val = lambda k: cval(get(k)) if get(k) is not None and is_const(get(k)) else None
            r.ob("described", m + ".size", val("size") == n, "%s is described as %s bytes" % (m, get("size")), td)
            r.ob("described", m + ".signed", val("signed") is (code.islower() if kind == "int" else kind == "float"), "%s is described with signed=%s" % (m, get("signed")), td)
            if get("integer") is not None:
                r.ob("described", m + ".integer", val("integer") is (kind == "int"), "%s is described with integer=%s" % (m, get("integer")), td)
            if kind == "int":
                r.ob("limits", m, val("max") == hi and (val("min") == lo), "%s declares limits %s..%s, its format has %d..%d" % (m, get("min"), get("max"), lo, hi), td)
        # acceptance
        st = St()
        me = V("sym", "self").typed(("c", r.cls("TypePrimitive")))
        st.store[("A", me, "type")] = ev
        f = r.method("TypePrimitive", "set")
        data = V("sym", f.params[1])
        acc = 0
        for p in r.call(w, V("bound", f, me), [data, V("sym", "time")], st=st):
            if p.kind == "exc":
                continue
            wr = [e for e in p.events if e.kind == "write" and e.name == "data" and e.recv == me]
            if is_const(p.val, False):
                r.ob("refused-unchanged", m, not wr, "a refused value is stored", wr[0] if wr else f)
                continue
            acc += 1
            isa = any(v.k == "app" and v.a[0] == "isinstance" and v.a[1] == data and pol and show(v.a[2]) == kind for _, v, pol, _ in assumes(p))
            r.ob("accepts-own-type", m, isa, "%s accepts values of another type than its format's" % m, f)
            ok = True
            if kind == "int":
                ok = known_ge(p, V("bin", "-", data, const(lo))) and known_ge(p, V("bin", "-", const(hi), data))
            elif code in "ef":
                ok = any(e.kind == "call" and e.name == "struct.pack" and is_const(e.args[0]) and str(cval(e.args[0])).lstrip("<>!=@") == code
                         and e.args[1] == data for e in p.events)
            r.ob("accepted-fits", m, bool(ok), "%s accepts values its format cannot pack" % m, f)
            stored = bool(wr) and (wr[-1].val == data or wr[-1].val.k == "app" and wr[-1].val.a[1:] == (data,) or mentions(wr[-1].val, data))
            r.ob("accepted-stored", m, stored, "an accepted value is not stored", f)
        if not acc:
            r.ob("accepts", m, False, "%s accepts no value" % m, f)
        # default value
        dv = r.func(prim, "default_val")
        for p in r.call(w, V("func", dv, None), [ev]):
            v = p.val
            if v.k == "app" and len(v.a) == 1:
                r.ob("default-value", m, v.a[0] == kind, "%s starts with a value of another type" % m, dv)
                continue
            ok = type(cval(v)).__name__ == kind
            r.ob("default-value", m, ok if is_const(v) else None, "%s starts with a value of another type: %r" % (m, v), dv)
    # defaults on the wire
    for k in ("id", "enum", "count", "timestamp", "crc", "metric"):
        nd = r.func("vtelem.classes.type_primitive", "new_default")
        for p in r.call(w, V("func", nd, None), [const(k)]):
            if p.kind == "exc":
                r.ob("default", k, False, "there is no default type for %s" % k, nd)
                continue
            t = p.st.store.get(("A", p.val, "type"))
            if t is None or t.k != "enum":
                r.ob("default", k, None, "default %s not understood: %r" % (k, t), nd)
                continue
            kd = kinds.get(t.a[1], ("?", "?"))
            r.ob("default", k, kd[0] == "int" and kd[1].isupper(), "%s is transmitted as %s, which is no unsigned integer" % (k, t.a[1]), nd)
    r.require("format", "size", "limits", "accepted-fits", "accepts-own-type", "default", "refused-unchanged")
