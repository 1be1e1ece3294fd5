"""J01: a serializable object survives the trip through JSON."""
import os
import re

from rules._daemon import *
from vsa.model import CI
from vsa.walk import St

SER = "vtelem.classes.serdes"


def entries(p, d, n=0):
    """[(key, value)] put into the dict `d` on the path; a comprehension gives one generic entry."""
    out = []
    for t in p.st.store.get(("COMP", d), ()) or ():
        k, v = tup(t, 0), tup(t, 1)
        out.append((k, v))
    for e in p.events:
        if e.kind == "store" and e.recv == d:
            out.append((e.args[0], e.val))
        elif e.kind == "call" and e.fi is None and e.name == "update" and e.recv == d and e.args and e.args[0] != d and n < 4:
            out += entries(p, e.args[0], n + 1)
    return out


def class_name_of(v, me):
    """Whether v is the name of the class of `me`."""
    return isinstance(v, V) and show(v) in ("%s.__class__.__name__" % show(me), "type(%s).__name__" % show(me))


def own_class_call(e, me):
    """A call which makes another object of the class of `me`."""
    if e.kind != "call" or e.fi is not None:
        return False
    if e.name == "__class__" and e.recv == me:
        return True
    return e.fn is not None and show(e.fn) == "type(%s)" % show(me)


def fold(p, v, names):
    """The constant string v evaluates to: constants, re.sub with constant pattern, lower, concatenation; None: not understood. `names`: {value text: constant} for class names."""
    if not isinstance(v, V):
        return None
    if is_const(v):
        return str(cval(v))
    if show(v) in names:
        return names[show(v)]
    if v.k == "app" and v.a[0] in ("m:lower", "m:upper", "m:strip") and len(v.a) == 2:
        x = fold(p, v.a[1], names)
        return None if x is None else getattr(x, v.a[0][2:])()
    for e in p.events:
        if e.kind == "call" and e.val == v and e.name in ("re.sub",) and len(e.args) == 3 and not e.kw:
            a = [fold(p, x, names) for x in e.args]
            if None in a:
                return None
            try:
                return re.sub(*a)
            except re.error:
                return None
    return None


def schemas(r):
    """{file stem: (parsed yaml, relative path)} of the schemas shipped with the package; None: cannot be read."""
    try:
        import yaml
    except ImportError:
        return None
    top = os.path.dirname(r.p.modules["vtelem"].path) if hasattr(r.p.modules.get("vtelem"), "path") else os.path.join(r.p.root, "vtelem")
    d = os.path.join(top, "data", "serializables")
    out = {}
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith((".yaml", ".yml")):
                with open(os.path.join(d, n)) as f:
                    out[n.rsplit(".", 1)[0]] = (yaml.safe_load(f) or {}, "vtelem/data/serializables/" + n)
    return out


def accepts(pattern, text):
    """Cerberus' regex rule: the pattern must match the whole text."""
    return re.match(pattern if pattern.endswith("$") else pattern + "$", text) is not None


def int_paths(schema, pre=()):
    for k, s in schema.items():
        if isinstance(s, dict):
            if (s.get("keysrules") or {}).get("type") == "integer":
                yield pre + (k,)
            if isinstance(s.get("schema"), dict):
                yield from int_paths(s["schema"], pre + (k,))


def round_trip(r):
    S = V("sym", "self")
    par = V("attr", S, "params")
    f = r.method("Serializable", "json")
    stream = V("sym", f.params[1])
    for p in r.paths(f, r.walker()):
        if p.kind == "exc":
            continue
        ds = [e for e in p.events if e.kind == "call" and e.name in ("json.dump", "json.dumps")]
        r.ob("encoded", f.qual, len(ds) == 1, "%d JSON texts are written" % len(ds), f)
        for e in ds:
            to = e.arg(1, "fp") if e.name == "json.dump" else next((x.recv for x in p.events if x.kind == "call" and x.name == "write" and x.args and x.args[0] == e.val), None)
            r.ob("encoded", f.qual, to == stream, "the text is written to %s, not to the stream given" % (show(to) if to is not None else "nothing"), e)
            what = e.arg(0, "obj")
            r.ob("whole-object", f.qual, what == S or what == V("attr", S, "data"), "%s is written, not the object" % show(what), e)
            r.ob("own-encoder", f.qual, e.kw.get("cls") == V("attr", par, "encoder"), "the object's encoder is not used", e)
            r.ob("whole-object", f.qual, not any(k in e.kw and not is_const(e.kw[k], False) for k in ("skipkeys",)), "entries are left out", e)
            ind = next((x for x in f.params if x == "indent"), None)
            if ind:
                r.ob("indented", f.qual, e.kw.get("indent") is not None and mentions(e.kw["indent"], V("sym", ind)), "the indentation asked for is ignored", e)
    f = r.method("Serializable", "json_str")
    for p in r.paths(f, r.walker()):
        if p.kind == "exc":
            continue
        ds = [e for e in p.events if e.kind == "call" and e.name in ("json.dump", "json.dumps")]
        ok = False
        for e in ds:
            if e.name == "json.dumps":
                ok = ok or p.val == e.val
            else:
                ok = ok or any(x.kind == "call" and x.name == "getvalue" and x.recv == e.arg(1, "fp") and p.val == x.val for x in p.events)
        parts = [x.val for x in p.events if x.kind == "call" and x.name in ("getvalue", "json.dumps")]
        whole = p.val.k not in ("item", "slice") and not any(p.val.k == "app" and p.val.a[0] == "slice" and mentions(p.val, x) for x in parts)
        r.ob("text-returned", f.qual, True if ok else (False if not ds or is_none(p.val) or is_const(p.val) or not whole else None), "the text returned is %s" % show(p.val), f)
        for e in ds:
            r.ob("whole-object", f.qual, e.arg(0, "obj") in (S, V("attr", S, "data")), "%s is written, not the object" % show(e.arg(0, "obj")), e)
    init = r.method("Serializable", "__init__")
    for name in ("load", "load_str"):
        f = r.method("Serializable", name)
        src = V("sym", f.params[1])
        for p in r.paths(f, r.walker()):
            if p.kind == "exc":
                continue
            ld = [e for e in p.events if e.kind == "call" and e.name in ("json.load", "json.loads")]
            made = [e for e in p.events if own_class_call(e, S)]
            other = [e for e in p.events if e.kind == "new" and e.val == p.val]
            if other and not made:
                r.ob("decoded", f.qual, False, "an object of class %s is made, not of the object's own" % other[0].name, other[0])
                continue
            if len(ld) != 1 or len(made) != 1:
                r.ob("decoded", f.qual, False if not ld or not made and p.val.k in ("const", "sym") else None, "%d texts are read and %d objects made" % (len(ld), len(made)), f)
                continue
            e, m = ld[0], made[0]
            frm = e.args[0] if e.args else e.kw.get("fp" if e.name == "json.load" else "s")
            ok = frm == src or mentions(frm, src) or any(x.kind == "call" and x.val == frm and (src in x.args or x.recv == src) for x in p.events)
            r.ob("decoded", f.qual, ok, "the object is read from %s" % show(frm), e)
            r.ob("own-decoder", f.qual, e.kw.get("cls") == V("attr", par, "decoder"), "the object's decoder is not used", e)
            r.ob("decoded", f.qual, p.val == m.val, "%s is returned, not the object read" % show(p.val), f)
            names = init.params[1:]
            got = {n: (m.args[i] if i < len(m.args) else m.kw.get(n)) for i, n in enumerate(names)}
            r.ob("decoded", f.qual, got.get("data") == e.val, "the object is made from %s, not from what was read" % show(got.get("data")), m)
            r.ob("same-parameters", f.qual, got.get("params") == par, "the object read does not use this object's encoder, decoder and schema", m)
            r.ob("same-schemas", f.qual, got.get("manager") == V("attr", S, "manager"), "the object read is not validated with this object's schemas", m)
    E = r.cls("SerializableEncoder")
    f = r.p.find_method(E, "default")
    if isinstance(f, FI):
        o = V("sym", f.params[1])
        for p in r.paths(f, r.walker(try_raise=False)):
            if p.kind != "exc":
                r.ob("encoder", f.qual, p.val == V("attr", o, "data"), "an object is encoded as %s, not as its data" % show(p.val), f)
    else:
        r.ob("encoder", E.name, False, "nested objects cannot be encoded", E)
    f = r.method("Serializable", "__eq__")
    other = V("sym", f.params[1])
    for p in r.paths(f, r.walker()):
        if p.kind == "exc":
            continue
        eq = None
        for _, v, pol, _ in assumes(p):
            if v.k == "cmp" and v.a[0] == "==" and {v.a[1], v.a[2]} == {V("attr", other, "data"), V("attr", S, "data")}:
                eq = pol
        for v in subterms(p.val):
            if v.k == "cmp" and v.a[0] == "==" and {v.a[1], v.a[2]} == {V("attr", other, "data"), V("attr", S, "data")}:
                eq = True
        if eq is not True:
            r.ob("equality", f.qual, is_const(p.val, False) or p.val.k == "ext" and p.val.a[0] == "NotImplemented", "objects whose data is not known equal compare %s" % show(p.val), f)
        else:
            r.ob("equality", f.qual, False if is_none(p.val) or is_const(p.val, False) and not any(isinstance_of(v, other) and pol is False for _, v, pol, _ in assumes(p)) else True, "objects with equal data compare %s" % show(p.val), f)


def isinstance_of(v, x):
    return v.k in ("isinstance", "app") and mentions(v, x) and "isinstance" in show(v)


def constructed(r):
    S = V("sym", "self")
    f = r.method("Serializable", "__init__")
    given = V("sym", "data")
    w = r.walker(opaque=METRICS | {"Serializable.init", "Serializable.validate"})
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        at = {}
        for i, e in enumerate(p.events):
            if e.kind == "write" and e.recv == S:
                at[e.name] = (i, e)
        inits = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "init" and e.recv == S]
        vals = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "validate" and e.recv == S]
        if "data" not in at:
            r.ob("data-kept", f.qual, False, "the data is not stored", f)
            continue
        d = at["data"][1].val
        none = next((pol for _, v, pol, _ in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == given and is_none(v.a[2])), None)
        if none is True:
            r.ob("data-kept", f.qual, fresh(d), "without data the object uses %s" % show(d), at["data"][1])
        else:
            r.ob("data-kept", f.qual, d == given or (none is None and mentions(d, given)), "the object keeps %s, not the data given" % show(d), at["data"][1])
        r.ob("prepared", f.qual, len(inits) == 1, "init runs %d times" % len(inits), f)
        for i, e in inits:
            for n in ("data", "params", "manager", "log"):
                r.ob("prepared", f.qual, n in at and at[n][0] < i, "init runs before '%s' is set" % n, e)
            a = e.arg(0, "data")
            r.ob("prepared", f.qual, a == d or a == V("attr", S, "data"), "init is given %s, not the object's data" % show(a), e)
            r.ob("validated", f.qual, any(j > i for j, _ in vals) and "valid" in at and at["valid"][0] > i, "the data is not validated after init", e)
        for j, e in vals:
            m = e.arg(1, "manager")
            r.ob("validated", f.qual, m is not None and (m == V("sym", "manager") or m == V("attr", S, "manager") or "manager" in at and m == at["manager"][1].val), "the schema manager given is not used", e)
            if "valid" in at:
                r.ob("validated", f.qual, at["valid"][1].val == e.val, "'valid' is %s, not the result of validating" % show(at["valid"][1].val), at["valid"][1])
        for n in ("manager", "log"):
            if n in at:
                v = at[n][1].val
                r.ob("prepared", f.qual, v == V("sym", n) or mentions(v, V("sym", n)), "'%s' becomes %s" % (n, show(v)), at[n][1])
        if "params" in at:
            v = at["params"][1].val
            pn = next((pol for _, x, pol, _ in assumes(p) if x.k == "cmp" and x.a[0] == "is" and x.a[1] == V("sym", "params") and is_none(x.a[2])), None)
            if pn is not True:
                r.ob("prepared", f.qual, v == V("sym", "params") or pn is None and mentions(v, V("sym", "params")), "the parameters given are replaced by %s" % show(v), at["params"][1])
        # the type
        typed = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv in (d, V("attr", S, "data")) and is_const(e.args[0], "type")]
        known = any(v.k == "cmp" and v.a[0] == "in" and is_const(v.a[1], "type") and pol for _, v, pol, _ in assumes(p))
        dflt = [e for e in p.events if e.kind == "call" and e.name == "setdefault" and e.args and is_const(e.args[0], "type")]
        absent = any(v.k == "cmp" and v.a[0] == "in" and is_const(v.a[1], "type") and not pol for _, v, pol, _ in assumes(p))
        lacks = any(v.k in ("cmp", "item", "app") and "type" in show(v) for _, v, pol, _ in assumes(p))
        if known or not (absent or fresh(d) or lacks):
            r.ob("typed", f.qual, not typed, "a type the data already has is replaced", typed[0][1] if typed else f)
        elif dflt:
            r.ob("typed", f.qual, True, "", dflt[0])
        else:
            r.ob("typed", f.qual, bool(typed) and (not inits or typed[0][0] < vals[-1][0] if vals else True), "data without a type gets none", f)
    # validation
    f = r.method("Serializable", "validate")
    data, schema, man = V("attr", S, "data"), V("attr", V("attr", S, "params"), "schema"), V("sym", "manager")
    for p in r.paths(f, r.walker(assert_fork=True)):
        if p.kind == "exc":
            continue
        calls = [e for e in p.events if e.kind == "call" and e.fi is None and e.name in ("validate", "__call__") and e.arg(0, "document") == data]
        isn = {}
        for _, v, pol, _ in assumes(p):
            if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]):
                isn[v.a[1]] = pol
        if isn.get(schema) is False:
            want = schema
        elif isn.get(man) is False:
            want = None
            r.ob("own-schema", f.qual, True if isn.get(schema) is True or any(v == schema and not pol for _, v, pol, _ in assumes(p)) else None if any(mentions(v, schema) for _, v, pol, _ in assumes(p)) else False, "the schema of the class is used although the object may have its own", f)
            for e in calls:
                x = e.recv
                got = x is not None and (x.k == "item" and class_name_of(x.a[1], S) or x.k == "obj")
                r.ob("own-schema", f.qual, True if got else False, "the data is validated with %s" % show(x), e)
        elif isn.get(schema) is True and isn.get(man) is True:
            r.ob("own-schema", f.qual, not calls and (is_const(p.val, True)), "without a schema validation gives %s" % show(p.val), f)
            continue
        else:
            r.ob("own-schema", f.qual, None, "which schema applies is not understood", f)
            continue
        if want is not None:
            for e in calls:
                r.ob("own-schema", f.qual, e.recv == want, "the data is validated with %s, not with the object's schema" % show(e.recv), e)
        if not calls:
            miss = want is None and any(pol is True and v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and v.a[1].k == "item" for _, v, pol, _ in assumes(p))
            r.ob("validates", f.qual, True if miss else False, "the data is not validated although there is a schema", f)
            continue
        c = calls[-1]
        pol = next((x for _, v, x, _ in assumes(p) if v == c.val), None)
        r.ob("validates", f.qual, p.val == c.val or pol is not None and is_const(p.val, pol), "validation gives %s, not what the schema said" % show(p.val), f)


def keys_coerced(r, sch):
    S = V("sym", "self")
    ser = r.cls("Serializable")
    subs = {c.name: c for c in r.p.classes if ser in r.p.mro(c)}
    for stem, (schema, rel) in sch.items():
        C = subs.get(stem)
        r.ob("schema-class", rel, C is not None, "no serializable class is named %s" % stem, ser)
        if C is None:
            continue
        me = V("sym", "self").typed(("c", C))
        data = V("attr", me, "data")
        f = r.p.find_method(C, "init")
        for path in int_paths(schema):
            if len(path) != 1:
                r.ob("integer-keys", C.name, None, "nested map %s" % "/".join(path), C)
                continue
            key = const(path[0])
            if not isinstance(f, FI):
                r.ob("integer-keys", C.name, False, "the integer keys of '%s' stay text when read from JSON" % path[0], C)
                continue
            ps = r.call(r.walker(opaque=METRICS | {"Serializable.__init__", "max_key"}, try_raise=False), V("bound", f, me), [data])
            src = V("item", data, key)
            some = None
            for p in ps:
                if p.kind == "exc":
                    continue
                absent = any(v == V("cmp", "in", key, data) and pol is False for _, v, pol, _ in assumes(p))
                st = [e for e in p.events if e.kind == "store" and e.recv == data and e.args[0] == key]
                if not st:
                    r.ob("integer-keys", C.name, False, "the integer keys of '%s' stay text when read from JSON" % path[0], f)
                    continue
                d = st[-1].val
                es = entries(p, d)
                if absent:
                    continue
                left = any(e.kind == "compiter" and e.args and mentions(e.args[0], src) for e in p.events[:p.events.index(st[-1])]) and p.st.store.get(("COMP", d)) == ()
                if left:
                    r.ob("integer-keys", C.name, False, "entries of '%s' are left out" % path[0], st[-1])
                    continue
                if d.k != "obj":
                    r.ob("integer-keys", C.name, False if d == src else None, "'%s' becomes %s" % (path[0], show(d)), st[-1])
                    continue
                if some is None:
                    some = False
                if not es:
                    r.ob("integer-keys", C.name, not any(e.kind == "iter" for e in p.events[:p.events.index(st[-1])] if e.kind == "iter" and mentions(e.args[0], src)), "an entry of '%s' is left out" % path[0], st[-1])
                    continue
                some = True
                for k, v in es:
                    okk = k is not None and k.k == "app" and k.a[0] == "int"
                    okv = v is not None and v.k == "item" and v.a[0] == src
                    r.ob("integer-keys", C.name, True if okk and okv else (False if k is not None and k.k == "key" or okk and v is not None and (is_const(v) or v.k in ("key", "app")) else None),
                         "'%s' gets %s: %s" % (path[0], show(k), show(v)), st[-1])
                its = len([e for e in p.events[:p.events.index(st[-1])] if e.kind == "iter" and mentions(e.args[0], src)])
                r.ob("integer-keys", C.name, not its or len(es) >= its, "entries of '%s' are left out" % path[0], st[-1])
            if some is False:
                r.ob("integer-keys", C.name, False, "the entries of '%s' are lost" % path[0], f)
    return subs


def schema_types(r, sch, subs):
    f = r.method("Serializable", "__init__")
    for stem, (schema, rel) in sch.items():
        C = subs.get(stem)
        t = schema.get("type") or {}
        if C is None or "regex" not in t:
            continue
        me = V("sym", "self").typed(("c", C))
        w = r.walker(opaque=METRICS | {"Serializable.init", "%s.init" % C.name, "Serializable.validate"}, try_raise=False)
        for p in r.call(w, V("bound", f, me), [NONE]):
            if p.kind == "exc":
                continue
            for e in p.events:
                if e.kind == "store" and e.args and is_const(e.args[0], "type"):
                    names = {"type(self).__name__": C.name, "self.__class__.__name__": C.name}
                    got = fold(p, e.val, names)
                    r.ob("schema-type", C.name, None if got is None else accepts(t["regex"], got), "objects get the type '%s', which their schema rejects" % got, e)
    # the data the library makes has the fields its schema wants
    from_enum = r.func("vtelem.classes.user_enum", "from_enum")
    sc = sch.get("UserEnum")
    if sc is None:
        return
    schema, rel = sc
    used = set()
    for m in r.p.modules.values():
        for n in ast_calls(m):
            for a in n.args:
                t = r.p.resolve_expr(a, m)
                if isinstance(t, CI) and r.walker().is_enum(t) and name_of(n) in ("from_enum", "add_from_enum"):
                    used.add(t)
    for T in sorted(used, key=lambda c: c.name):
        ps = r.call(r.walker(while_max=12, try_raise=False, inline_pred=lambda x, s: True), V("func", from_enum, 0), [V("class", T)])
        r.ob("schema-enums", T.name, any(p.kind != "exc" for p in ps) if ps else None, "it cannot be made into a user enum", from_enum)
        for p in ps:
            if p.kind == "exc":
                continue
            data = p.st.store.get(("A", p.val, "data"))
            if data is None:
                r.ob("schema-enums", T.name, None, "data not understood", from_enum)
                continue
            have = p.st.store.get(("K", data)) or ()
            have = {cval(k) for k in have if is_const(k)}
            want = {k for k, v in schema.items() if not isinstance(v, dict) or v.get("required", True)}
            r.ob("schema-fields", T.name, want <= have <= set(schema), "made with the fields %s, its schema wants %s" % (sorted(have), sorted(schema)), from_enum)
            names = {}
            for k in sorted(have & set(schema)):
                v = p.st.store.get(("I", data, const(k)))
                s = schema[k]
                if s.get("type") == "string":
                    got = fold(p, v, {**names, "type(%s).__name__" % show(p.val): "UserEnum"}) if v is not None else None
                    if "regex" in s:
                        r.ob("schema-enums", T.name, None if got is None else accepts(s["regex"], got), "the %s '%s' is rejected by the schema of user enums" % (k, got), from_enum)
                    if v is not None and is_none(v):
                        r.ob("schema-enums", T.name, False, "'%s' is null" % k, from_enum)
                elif s.get("type") == "dict" and v is not None and v.k == "obj":
                    kr, vr = s.get("keysrules") or {}, s.get("valuesrules") or {}
                    for kk in p.st.store.get(("K", v)) or ():
                        vv = p.st.store.get(("I", v, kk))
                        if not is_const(kk) or vv is None or not is_const(vv):
                            r.ob("schema-enums", T.name, None, "entry %s" % show(kk), from_enum)
                            continue
                        if kr.get("type") == "integer":
                            r.ob("schema-enums", T.name, isinstance(cval(kk), int), "the key %r is not an integer" % cval(kk), from_enum)
                        if "regex" in vr:
                            r.ob("schema-enums", T.name, accepts(vr["regex"], str(cval(vv))), "the member '%s' is rejected by the schema of user enums" % cval(vv), from_enum)
    # any enum class may be made into a user enum: identifiers in lower case
    rx = (schema.get("name") or {}).get("regex")
    src = V("sym", from_enum.params[0])
    for p in r.paths(from_enum, r.walker(try_raise=False, inline_pred=lambda x, s: True)) if rx else ():
        data = p.st.store.get(("A", p.val, "data")) if p.kind != "exc" else None
        v = p.st.store.get(("I", data, const("name"))) if data is not None else None
        for t in ("State", "StateMachine", "HTTPState", "Mode2X", "aB", "A1b2C3", "Some_Mode", "lower"):
            got = fold(p, v, {"%s.__name__" % show(src): t}) if v is not None else None
            r.ob("schema-identifiers", from_enum.qual, None if got is None else accepts(rx, got), "the enumeration made of the class '%s' is named '%s', which its schema rejects" % (t, got), from_enum)
    for k, rx in (("name", (schema.get("name") or {}).get("regex")), ("mappings", ((schema.get("mappings") or {}).get("valuesrules") or {}).get("regex"))):
        if rx:
            for t in ("a", "a_b", "value_1", "a1", "_a", "z9_0"):
                r.ob("schema-identifiers", "UserEnum.%s" % k, accepts(rx, t), "'%s', made from an identifier, is rejected by the schema of user enums" % t, from_enum)


def ast_calls(m):
    import ast
    return [n for n in ast.walk(m.tree) if isinstance(n, ast.Call)] if hasattr(m, "tree") else []


def name_of(n):
    import ast
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def rebuilt(r):
    """The serializable enum registry."""
    C = next((c for c in r.p.classes if c.name == "EnumRegistry" and r.cls("Serializable") in r.p.mro(c)), None)
    if C is None:
        raise Anchor("the serializable EnumRegistry")
    f, add = r.p.find_method(C, "init"), r.p.find_method(C, "add")
    me = V("sym", "self").typed(("c", C))
    data = V("attr", me, "data")
    mk = V("item", data, const("mappings"))
    w = r.walker(opaque=METRICS | {"max_key", "Serializable.__init__"}, try_raise=False)
    seen = 0
    for p in r.call(w, V("bound", f, me), [data]):
        if p.kind == "exc":
            continue
        if not any(v == V("cmp", "in", const("mappings"), data) and pol for _, v, pol, _ in assumes(p)):
            continue
        st = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv == data and is_const(e.args[0], "mappings")]
        maxes = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "max_key"]
        cur = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == me and e.name == "curr_id"]
        if st and cur:
            i, e = cur[-1]
            v = e.val
            if maxes and mentions(v, maxes[-1][1].val):
                ok = lin_eq(v, V("bin", "+", maxes[-1][1].val, const(1)))
                r.ob("next-id", f.qual, ok, "the next identifier is %s" % show(v), e)
                r.ob("next-id", f.qual, maxes[-1][0] > st[-1][0] and maxes[-1][1].args[:1] == (st[-1][1].val,) or maxes[-1][1].args[:1] == (mk,) and maxes[-1][0] > st[-1][0],
                     "the highest identifier is looked for before the keys are integers", maxes[-1][1])
            else:
                r.ob("next-id", f.qual, False if is_const(v) or v.k == "app" and v.a[0] == "len" else None, "the next identifier is %s" % show(v), e)
        elif not cur:
            r.ob("next-id", f.qual, False, "the next identifier is not set from the data", f)
        # enums
        names = [v for e in p.events if e.kind == "iter" and e.val is not None for v in [e.val]]
        new = [e for e in p.events if e.kind == "new" and e.name == "UserEnum"]
        wr = [e for e in p.events if e.kind == "write" and e.recv == me and e.name == "enums"]
        if not wr:
            r.ob("enums-rebuilt", f.qual, False, "the enumerations are not made anew", f)
            continue
        table = wr[-1].val
        its = [e for i, e in enumerate(p.events) if e.kind == "iter" and e.args and (not st or i > st[-1][0]) and ("mappings" in show(e.args[0]) or any(x == s[1].val for s in st for x in subterms(e.args[0])))]
        loaded = [e for e in p.events if e.kind == "store" and e.recv in (table, V("attr", me, "enums"))]
        if its:
            seen += 1
            r.ob("enums-rebuilt", f.qual, len(loaded) == len(its), "%d of %d enumerations are made" % (len(loaded), len(its)), f)
        for e in loaded:
            n = next((x for x in new if x.val == e.val), None)
            if n is None:
                r.ob("enums-rebuilt", f.qual, None if e.val.k not in ("item", "const") else False, "%s is kept, not an enumeration" % show(e.val), e)
                continue
            d = n.kw.get("data") or (n.args[0] if n.args else None)
            ok = d is not None and d.k == "item" and d.a[1] == e.args[0] and ("enums" in show(d.a[0]) or d.a[0].k == "obj")
            r.ob("enums-rebuilt", f.qual, True if ok else None if d is not None and mentions(d, e.args[0]) else False, "'%s' is made from %s" % (show(e.args[0]), show(d)), n)
            m = n.kw.get("manager")
            r.ob("enums-rebuilt", f.qual, m == V("attr", me, "manager"), "the enumerations read are not validated with the registry's schemas", n)
    r.ob("enums-rebuilt", f.qual, seen > 0 or None, "no path makes enumerations from the data", f)
    # max_key
    mkf = r.func(SER, "max_key")
    src = V("sym", mkf.params[0])
    for p in r.paths(mkf, r.walker(while_max=2)):
        if p.kind == "exc":
            continue
        ints, done = [], set()
        keys = [e.val for e in p.events if e.kind == "iter" and e.args and mentions(e.args[0], src)]
        r.ob("highest-id", mkf.qual, not left_early(p), "not all keys are looked at", mkf)
        if any(e.kind == "compiter" for e in p.events) or p.val.k == "app":
            r.ob("highest-id", mkf.qual, None, "%s" % show(p.val), mkf)
            continue
        le = {}      # a -> set of b with a <= b
        for _, v, pol, _ in assumes(p):
            if v.k == "cmp" and v.a[0] == "<":
                a, b = v.a[1], v.a[2]
                if pol:
                    le.setdefault(a, set()).add(b)
                else:
                    le.setdefault(b, set()).add(a)

        def upto(a, b, n=0):
            return a == b or n < 6 and any(upto(x, b, n + 1) for x in le.get(a, ()))
        for k in keys:
            notint = any(pol is False and isinstance_of(v, k) for _, v, pol, _ in assumes(p))
            if not notint:
                r.ob("highest-id", mkf.qual, upto(k, p.val), "%s is given although a key may be greater" % show(p.val), mkf)
        r.ob("highest-id", mkf.qual, p.val in keys or is_const(p.val, -1), "%s is given as the highest key" % show(p.val), mkf)
    # add
    enum = V("sym", add.params[1])
    for p in r.call(r.walker(assert_fork=True, try_raise=False), V("bound", add, me), [enum]):
        if p.kind == "exc":
            continue
        cid = V("attr", me, "curr_id")
        maps = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv == mk]
        cur = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == me and e.name == "curr_id"]
        ens = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv == V("attr", me, "enums")]
        dat = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and "enums" in show(e.recv) + show(e.args[0]) and e.val == V("attr", enum, "data")
               or e.kind == "store" and e.recv.k == "obj" and e.val == V("attr", enum, "data")]
        r.ob("registered-in-data", add.qual, len(maps) == 1 and maps[0][1].args[0] == cid, "the identifier is not the next one", add)
        r.ob("registered-in-data", add.qual, bool(dat), "the enumeration's data is not part of the registry's", add)
        r.ob("registered-in-data", add.qual, len(ens) == 1 and ens[0][1].val == enum, "the enumeration is not kept", add)
        if maps and ens and dat:
            n = ens[0][1].args[0]
            r.ob("registered-in-data", add.qual, maps[0][1].val == n == dat[0][1].args[0], "the names differ", add)
            al = [set(ids(e)) for _, e in maps + ens + dat + cur]
            r.ob("registered-together", add.qual, bool(set.intersection(*al)), "the changes are not made in one critical section", add)
            ab = any(v == V("cmp", "in", n, V("attr", me, "enums")) and pol is False for _, v, pol, _ in assumes(p))
            r.ob("registered-once", add.qual, ab, "a name already registered is replaced", add)
        r.ob("registered-in-data", add.qual, len(cur) == 1 and lin_eq(cur[0][1].val, V("bin", "+", cid, const(1))), "the next identifier does not advance by one", add)
        r.ob("registered-in-data", add.qual, p.val == cid, "%s is given as the identifier" % show(p.val), add)


def check(r):
    r.rule("The JSON paths are walked: json/json_str write the object itself with its encoder to the stream asked for and return the text; load/load_str read with the object's decoder and return an object of the same class made from exactly what was "
           "read, with the same parameters and schemas; the encoder gives an object's data; equality needs equal data. The constructor keeps the data given, adds a type only when there is none, runs init once after everything init uses is set and "
           "validates afterwards; validation uses the object's schema, else that of its class, and gives its verdict. Every map which a shipped schema gives integer keys is converted key by key in the class's init. The schema file's type pattern accepts "
           "the type its class gets, and every enumeration the library makes (from_enum, constant-folded per enum class) has the fields and texts its schema accepts, as do lower-case identifiers. The serializable enum registry continues after its highest "
           "identifier, makes an enumeration for every mapping and registers id, name, data and object together.")
    r.assume("json.dump and json.load of the standard library are inverse on JSON-native data with text keys; Cerberus matches whole texts.")
    round_trip(r)
    constructed(r)
    sch = schemas(r)
    if sch is None:
        r.ob("integer-keys", "schemas", None, "PyYAML is not available", r.cls("Serializable"))
    else:
        subs = keys_coerced(r, sch)
        schema_types(r, sch, subs)
    rebuilt(r)
    r.require("encoded", "decoded", "data-kept", "validated")
