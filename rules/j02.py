"""J02: describing a registry gives everything it holds, whatever it holds."""
import ast

from rules._daemon import *
from rules.x03 import handlers  # noqa
from vsa.model import CI
from vsa.walk import St

NATIVE = {"str", "int", "float", "bool", "NoneType", "object", "dict", "list", "tuple"}


def item_type(r, C):
    """What a Registry class holds: the argument of Registry[...] among its bases; None: generic."""
    for c in r.p.mro(C):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                head = r.p.resolve_expr(b.value, c.module)
                if isinstance(head, CI) and head.name == "Registry":
                    return b.slice, c.module
    return None


def types_in(r, e, module, d=0):
    """Library classes which an annotation admits as leaves; None in the list: not understood."""
    if d > 8:
        return [None]
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return types_in(r, ast.parse(e.value, mode="eval").body, module, d + 1)
    if isinstance(e, ast.Constant):
        return []
    if isinstance(e, ast.Subscript):
        args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        head = r.p.resolve_expr(e.value, module)
        if isinstance(head, CI):
            return [head]
        return [x for a in args for x in types_in(r, a, module, d + 1)]
    if isinstance(e, ast.Name) and e.id in NATIVE:
        return []
    head = r.p.resolve_expr(e, module)
    if isinstance(head, CI):
        return [head]
    if isinstance(e, ast.Name):
        got = r.p.lookup(module, e.id)
        if got and got[0] == "var":
            v = r.p._module_assign(got[1], got[2])
            if v is not None:
                return types_in(r, v, got[1], d + 1)
    t = r.p.ann_type(e, module)
    return [t[1]] if t and t[0] == "c" else [None]


def handled(r, E, T, seen=()):
    """(verdict, what is wrong): whether the encoder E turns an object of class T into JSON-native data."""
    if E is None:
        return (r.p.is_sub(T, "dict") or None if False else False), "no encoder is given for objects of %s" % T.name
    f = r.p.find_method(E, "default")
    if f is None or not isinstance(f, FI):
        return False, "the encoder %s handles no objects" % E.name
    o = V("sym", "o").typed(("c", T))
    verdict, why = True, ""
    w = r.walker(opaque=METRICS)
    ps = r.call(w, V("bound", f, V("sym", "self").typed(("c", E))), [o])
    nret = 0
    for p in ps:
        if p.kind == "exc":
            bad = [v for _, v, pol, _e in assumes(p) if v.k == "app" and v.a[0] == "isinstance" and v.a[1] == o and pol is False]
            own = False
            for v in bad:
                k = v.a[2]
                ks = [x for x in ([k] if k.k == "class" else k.a if k.k == "tup" else ()) if x.k == "class"]
                own = own or any(x.a[0] in r.p.mro(T) for x in ks)
            if own:
                continue            # not an object of this class after all
            return False, "the encoder %s raises %s for an object of %s" % (E.name, p.exc_name, T.name)
        if any(v.k == "app" and v.a[0] == "isinstance" and v.a[1] == o and pol and not any(can_be(r, T, x) for x in (v.a[2].a if v.a[2].k == "tup" else [v.a[2]])) for _, v, pol, _e in assumes(p)):
            continue                # only for objects of another class
        nret += 1
        if p.val is None or is_none(p.val):
            return False, "the encoder %s returns nothing for an object of %s" % (E.name, T.name)
        for leaf in leaves(p, p.val):
            t = w.ty(leaf, p.st)
            if leaf == o:
                return False, "the encoder %s returns the object of %s itself" % (E.name, T.name)
            if t and t[0] == "c" and isinstance(t[1], CI) and not native(r, t[1]) and t[1] is not T and t[1] not in seen:
                ok, m = handled(r, E, t[1], seen + (T,))
                if ok is not True:
                    return ok, m
        if p.val.k == "obj":
            ks = p.st.store.get(("K", p.val)) or ()
            for k in ks:
                if not is_const(k) or not isinstance(cval(k), str):
                    continue
                if r.p.attr_type(T, cval(k)) is None and cval(k) not in attrs(T):
                    continue
                v = p.st.store.get(("I", p.val, k))
                if v is None:
                    continue
                src = V("attr", o, cval(k))
                if not any(src == y for z in spread(p, v) for y in subterms(z)) and not (v.k == "obj" and any(mentions(z, src) for z in list(p.facts) + [x for e in p.events if e.kind == "iter" for x in e.args])):
                    verdict, why = False, "'%s' of an object of %s is described by %s" % (cval(k), T.name, show(v))
    if not nret:
        return False, "the encoder %s never returns for an object of %s" % (E.name, T.name)
    return verdict, why


def can_be(r, T, k):
    """Whether an object of the library class T may be an instance of k."""
    names = {getattr(b, "name", str(b)).split(".")[-1] for b in r.p.mro(T)}
    if k.k == "class":
        return k.a[0] in r.p.mro(T)
    if k.k == "ext":
        n = str(k.a[0]).split(".")[-1]
        return n in names or n == "object" or n not in NATIVE
    return True


def attrs(T):
    out = set()
    for n in ast.walk(T.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
            out.add(n.attr)
    return out


def native(r, c):
    return any(x in NATIVE or "Enum" == x for x in [getattr(b, "name", str(b)) for b in r.p.mro(c)][1:])


def spread(p, v, d=0):
    """The value and what it is made of."""
    out = [v]
    if d > 4:
        return out
    if v.k == "obj":
        for k in p.st.store.get(("K", v)) or ():
            x = p.st.store.get(("I", v, k))
            if x is not None:
                out += spread(p, x, d + 1)
        for x in p.st.store.get(("C", v)) or ():
            if isinstance(x, V):
                out += spread(p, x, d + 1)
        for x in p.st.store.get(("COMP", v)) or ():
            for y in x if isinstance(x, tuple) else (x,):
                if isinstance(y, V):
                    out += spread(p, y, d + 1)
    return out


def leaves(p, v):
    return [x for x in spread(p, v) if x.k != "obj"]


def check(r):
    r.rule("Every Registry class's describe is walked: on every path one JSON text of the whole table (items and mappings) is made under the registry's lock and returned, indented as asked; the encoder passed with it is walked with an "
           "object of the class the registry holds (the argument of Registry[...]): it returns, with data and not the object, and an entry named like an attribute is made from that attribute. A registry which names no encoder holds "
           "only JSON-native types. The 'types' and 'registries' requests return the description of the type registry and of every registry of the environment; every registry the environment makes is listed there.")
    r.assume("Attribute annotations and Registry[...] arguments name the types actually stored.")
    R = r.cls("Registry")
    S = V("sym", "self")
    for C in [c for c in r.p.classes if R in r.p.mro(c) and c is not R]:
        f = r.p.find_method(C, "describe")
        if not isinstance(f, FI):
            r.ob("describes", C.name, False, "no description", C)
            continue
        me = V("sym", "self").typed(("c", C))
        ind = V("sym", f.params[1]) if len(f.params) > 1 else None
        it = item_type(r, C)
        ts = types_in(r, it[0], it[1]) if it else [None]
        w = r.walker(opaque=METRICS)
        for p in r.call(w, V("bound", f, me), [V("sym", x) for x in f.params[1:]]):
            if p.kind == "exc":
                continue
            ds = [e for e in p.events if e.kind == "call" and e.fi is None and e.name.split(".")[-1] in ("dumps",)]
            if len(ds) != 1 or p.val != ds[0].val:
                r.ob("describes", C.name, None if ds or p.val.k != "const" else False, "the description is %s" % show(p.val), f)
                continue
            d = ds[0]
            what = d.args[0] if d.args else d.kw.get("obj")
            table = V("attr", me, "data")
            ok = what == table or what is not None and what.k == "app" and what.a[0] in ("copy", "dict") and what.a[1] == table
            r.ob("whole-table", C.name, True if ok else (False if what is not None and mentions(what, table) else None), "%s is described, not everything the registry holds" % show(what), d)
            r.ob("under-lock", C.name, held(d, V("attr", me, "lock")) is not None, "the table is read without the registry's lock", d)
            if ind is not None:
                i = d.kw.get("indent", NONE)
                pol = p.facts.get(ind)
                if pol is None:
                    r.ob("indented", C.name, None if mentions(i, ind) else False, "the text does not depend on the indentation asked for", d)
                else:
                    r.ob("indented", C.name, is_none(i) is (not pol) if i.k == "const" else None, "the text is %sindented although it was%s asked for" % (("not ", "") if pol else ("", " not")), d)
            cls = d.kw.get("cls", NONE)
            hook = d.kw.get("default", NONE)
            skip = d.kw.get("skipkeys")
            r.ob("whole-table", C.name, skip is None or is_const(skip, False), "entries which cannot be described are left out", d)
            if not (is_none(cls) or cls.k == "class") or not is_none(hook):
                r.ob("encodable", C.name, None, "encoder %s" % show(cls if is_none(hook) else hook), d)
                continue
            if not ts:
                r.ob("encodable", C.name, True, "", d)
            for T in ts:
                if T is None or native(r, T) and r.p.find_method(T, "__init__") is None and not any(b.name == "Enum" for b in r.p.mro(T)[1:] if isinstance(b, CI)) and not r.walker().is_enum(T):
                    r.ob("encodable", C.name, None, "the type held is not understood", d)
                    continue
                ok, why = handled(r, cls.a[0] if cls.k == "class" else None, T)
                r.ob("encodable", C.name, ok, why, d)
    # requests
    reg = r.func("vtelem.factories.telemetry_server", "register_http_handlers")
    add = r.method("HttpDaemon", "add_handler")
    telem = V("sym", reg.params[1])
    found = {}
    for p in r.paths(reg, r.walker(opaque=QUIET | {"HttpDaemon.add_handler"})):
        for e in p.events:
            if e.kind == "call" and e.name == add.name:
                m, pa, h = e.arg(0, "request_type"), e.arg(1, "path"), e.arg(2, "handle")
                if h is not None and h.k in ("func", "bound") and is_const(pa):
                    found.setdefault(cval(pa), (h, p.st, e))
    OWN = {"vtelem.factories.telemetry_server"}
    for path in ("types", "registries", "id"):
        if path not in found:
            r.ob("request", reg.qual, False, "there is no '%s' request" % path, reg)
            continue
        h, st, at = found[path]
        f = h.a[0]
        ww = r.walker(opaque=QUIET, inline_pred=lambda x, s: x.module.name in OWN)
        for p in r.call(ww, h, [V("sym", x) for x in f.params[(1 if h.k == "bound" else 0):]], st=st.fork()):
            if p.kind == "exc":
                continue
            ok, body = tup(p.val, 0), tup(p.val, 1)
            if ok is None:
                r.ob("request", f.qual, None, "result %s" % show(p.val), f)
                continue
            r.ob("request", f.qual, is_const(ok, True) if ok.k == "const" else None, "a '%s' request is answered with failure" % path, f)
            if path == "id":
                base = V("attr", telem, "app_id")
                gets = [e.val for e in p.events if e.kind == "call" and e.name == "get" and e.recv == base]
                r.ob("request", f.qual, any(mentions(body, g) for g in gets) or mentions(body, V("attr", base, "data")), "the answer %s is not this application's id" % show(body), f)
            elif path == "types":
                base = V("attr", telem, "type_registry")
                got = [e for e in p.events if e.kind == "call" and e.name in ("describe", "describe_raw") and e.recv == base]
                r.ob("request", f.qual, any(e.val == body for e in got) or (None if any(mentions(body, e.val) for e in got) else False), "the answer %s is not the type registry's description" % show(body), f)
            else:
                base = V("attr", telem, "registries")
                dumps = [e for e in p.events if e.kind == "call" and e.fi is None and e.name.split(".")[-1] == "dumps" and e.val == body]
                if len(dumps) != 1 or not dumps[0].args:
                    r.ob("request", f.qual, None, "answer %s" % show(body), f)
                    continue
                D = dumps[0].args[0]
                its = [e for e in p.events if e.kind in ("iter", "compiter") and e.args and any(x == base for x in subterms(e.args[0]))]
                desc = [e for e in p.events if e.kind == "call" and e.name in ("describe", "describe_raw") and e.recv is not None and mentions(e.recv, base)]
                loads = [e for e in p.events if e.kind == "call" and e.fi is None and e.name.split(".")[-1] == "loads" and e.args and any(e.args[0] == x.val for x in desc)]
                if p.st.store.get(("COMP", D)):
                    n = len([e for e in loads if any(isinstance(x, V) and mentions(x, e.val) or x == e.val for x in p.st.store[("COMP", D)])])
                    r.ob("every-registry", f.qual, None if not its else n == len(its) or None, "a registry is left out", f)
                    continue
                loops = [e for e in its if e.kind == "iter"]
                for e in loops:
                    k = e.val.a[0] if e.val.k == "tup" and e.val.a else e.val
                    put = [x for x in p.events if x.kind == "store" and x.recv == D and x.args and any(y.k in ("elem", "key") and mentions(y, base) for y in subterms(x.args[0]))]
                stores = [x for x in p.events if x.kind == "store" and x.recv == D]
                r.ob("every-registry", f.qual, len(stores) == len(loops) and all(any(x.val == l.val for l in loads) for x in stores) and len({x.args[0] for x in stores}) == len(stores) and not left_early(p),
                     "the answer holds %d descriptions for %d registries" % (len(stores), len(loops)), f)
                if not its:
                    r.ob("every-registry", f.qual, not any(v == base or mentions(v, base) for v, pol in p.facts.items() if pol) and any(mentions(v, base) for v in p.facts), "no registry is described", f)
    # what the environment lists
    for name in ("ChannelEnvironment", "TelemetryEnvironment"):
        C = r.cls(name)
        init = r.method(name, "__init__")
        me = V("sym", "self").typed(("c", C))
        for p in r.call(r.walker(opaque=QUIET, try_raise=False, inline_pred=lambda x, s: x.name == "__init__" and x.cls in r.p.mro(C)), V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
            if p.kind == "exc":
                continue
            table = p.st.store.get(("A", me, "registries"))
            listed = [p.st.store.get(("I", table, k)) for k in p.st.store.get(("K", table)) or ()] if table is not None else []
            listed += [e.val for e in p.events if e.kind == "store" and e.recv in (table, V("attr", me, "registries"))]
            for (k, v) in [(k, v) for k, v in p.st.store.items() if k[0] == "A" and k[1] == me]:
                t = r.p.attr_type(C, k[2])
                if t and t[0] == "c" and isinstance(t[1], CI) and R in r.p.mro(t[1]):
                    r.ob("listed", "%s.%s" % (name, k[2]), v in listed or V("attr", me, k[2]) in listed, "the environment's %s is not among its registries" % k[2], init)
    r.require("whole-table", "under-lock", "encodable", "request", "every-registry", "listed")
