"""X06: lookups never change what they look up."""
import ast

from rules._daemon import *
from rules.x01 import no_insert, setup

LOOKUPS = [("Registry", "get_item"), ("Registry", "get_id"), ("Registry", "count"), ("EnumRegistry", "get_enum"), ("TypeRegistry", "get_type"), ("ChannelRegistry", "get_channel_type"),
           ("UserEnum", "get_str"), ("UserEnum", "get_value"), ("DaemonManager", "get"), ("DaemonManager", "states"), ("HttpRequestMapper", "get_handle"),
           ("ChannelEnvironment", "has_metric"), ("ChannelEnvironment", "has_channel"), ("ChannelEnvironment", "get_metric"), ("ChannelEnvironment", "get_value"),
           ("TelemetryEnvironment", "is_enum_channel"), ("TelemetryEnvironment", "get_enum_metric"), ("TelemetryEnvironment", "get_enum_value"), ("TelemetryEnvironment", "has_enum"),
           ("SchemaManager", "__getitem__"), ("SchemaManager", "get"), ("MessageCache", "complete"), ("MessageCache", "content"), ("MessageCache", "content_str"),
           ("Registry", "describe"), ("TypeRegistry", "describe"), ("EnumRegistry", "describe"), ("ChannelRegistry", "describe")]
# command entry points are lookups too when the name or id they are given is unknown
REFUSED = [("DaemonManager", "perform"), ("ChannelEnvironment", "command_channel_id"), ("ChannelEnvironment", "command_channel"), ("TelemetryEnvironment", "command_enum_channel_id"),
           ("TelemetryEnvironment", "command_enum_channel"), ("ChannelEnvironment", "set_now"), ("TelemetryEnvironment", "set_enum_now")]

TABLES = {"data", "strings", "daemons", "depends_on", "requests", "handle_data", "metrics", "enum_channel_types", "schemas", "fragment_data", "registries", "handlers"}


def isdd(n, local, rets):
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm == "cast" and len(n.args) == 2:
            return isdd(n.args[1], local, rets)
        if nm in ("defaultdict", "DefaultDict") and n.args and not (isinstance(n.args[0], ast.Constant) and n.args[0].value is None):
            a = n.args[0]
            inner = isinstance(a, ast.Lambda) and isdd(a.body, local, rets)
            return 2 if inner else 1
        return rets.get(nm, 0)
    if isinstance(n, ast.Name):
        return local.get(n.id, 0)
    return 0


def tables(r):
    """{(attribute, level): classes} of the tables which create an entry when an unknown key is read."""
    rets, out, glob = {}, {}, set()

    def scan(body, cls, fname):
        local, again = {}, True
        while again:
            again = False
            for n in ast.walk(body):
                tgt, val = None, None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tgt, val = n.target, n.value
                elif isinstance(n, ast.Return) and n.value is not None:
                    d = isdd(n.value, local, rets)
                    if d and fname and rets.get(fname) != d:
                        rets[fname] = d
                        again = True
                    continue
                if tgt is None:
                    continue
                d = isdd(val, local, rets)
                if not d:
                    continue
                if isinstance(tgt, ast.Name):
                    if local.get(tgt.id) != d:
                        local[tgt.id] = d
                        again = True
                        if fname is None and cls is None:
                            glob.add(tgt.id)
                    continue
                lvl = 0
                while isinstance(tgt, ast.Subscript):
                    tgt, lvl = tgt.value, lvl + 1
                if isinstance(tgt, ast.Attribute):
                    for k in range(d):
                        out.setdefault((tgt.attr, lvl + k), set()).add(cls)
    for _ in range(2):
        for f in r.p.functions:
            if f.parent is None and not f.is_lambda:
                scan(f.node, f.cls, f.name)
    return out


def split(v):
    """(class-typed owner, attribute, level) of a table value."""
    lvl = 0
    while v.k == "item":
        v, lvl = v.a[0], lvl + 1
    if v.k == "attr":
        return v.a[0], v.a[1], lvl
    return None, None, lvl


def check(r):
    r.rule("Every lookup function is walked to the end of its call chain: it changes no object that existed before (and neither does a command or set naming an unknown channel before failing); a read of a table which creates missing entries "
           "(found in the constructors; the table of commands included, for handling a command and for asking for help) happens only for keys established to be present; a path on which the key is absent returns None, false or a failure, or raises.")
    r.assume("Tables are dictionaries of the standard library.")
    dd = tables(r)
    n = 0
    for (c, m), full in [(x, True) for x in LOOKUPS] + [(x, False) for x in REFUSED]:
        f = r.method(c, m)
        me = V("sym", "self").typed(("c", r.cls(c)))
        op = QUIET - {"x"} if full and m not in ("perform",) else QUIET | {"Channel.command", "Channel.set", "TypePrimitive.set", "Channel.add", "TypePrimitive.add", "Daemon.perform", "DaemonBase.perform"}
        w = r.walker(opaque=op, track_reads=True, loop=(0, 1), try_raise=False)
        for p in r.call(w, V("bound", f, me), [V("sym", x) for x in f.params[1:]]):
            for i, e in enumerate(p.events):
                if e.kind != "readitem" or e.recv is None or not e.args:
                    continue
                owner, attr, lvl = split(e.recv)
                if (attr, lvl) not in dd:
                    continue
                t = w.ty(owner, p.st)
                own = dd[(attr, lvl)]
                if t and t[0] == "c" and not isinstance(t[1], str) and None not in own and not any(r.p.is_sub(t[1], o) or r.p.is_sub(o, t[1]) for o in own):
                    continue
                k = e.args[0]
                known = present_before(p, i, e.recv, k) is not None or k.k == "key" and k.a[0] == e.recv or \
                    any(x.kind == "iter" and x.args and mentions(x.args[0], e.recv) and (x.val == k or tup(x.val, 0) == k) for x in p.events[:i]) or \
                    any(x.kind == "store" and x.recv == e.recv and x.args[0] == k for x in p.events[:i])
                n += 1
                r.ob("no-entry-created", f.qual, known, "looking up %s in '%s' adds an entry" % (show(k), attr), e)
            missing = [v for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "in" and pol is False and root(v.a[2]) == V("sym", "self") or
                       v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and v.a[1].k == "item" and root(v.a[1]) == V("sym", "self")]
            for i, e in mutations(p):
                if e.kind == "call" and e.name in ("put", "put_nowait"):
                    continue
                if full or missing and (p.kind == "exc" or p.val is not None and is_const(p.val) and not cval(p.val)):
                    o, a, _ = split(e.recv)
                    read = {x.recv for x in p.events if x.kind in ("readitem", "iter") and x.recv is not None} | {v.a[2] for v in p.facts if v.k == "cmp" and v.a[0] == "in"}
                    table = a in TABLES or e.kind == "write" and e.name in TABLES or any(e.recv == x or mentions(x, e.recv) and e.recv != V("sym", "self") for x in read)
                    r.ob("changes-nothing", f.qual, False if table else None, "%s changes %s" % ("a lookup" if full else "a refused command", show(e.recv)), e)
            if full or missing:
                r.ob("changes-nothing", f.qual, True, "", f)
            if missing and m != "states" and p.kind != "exc":
                v = p.val
                first = tup(v, 0) if v is not None and v.k == "tup" else v
                bad = first is not None and (first.k != "const" or cval(first) not in (None, False)) and not (v.k == "tup" and not v.a)
                if bad and first is not None and (first.k in ("obj", "call") or full is False or m in ("perform",)):
                    bad = None
                elif bad and any(pol for _, x, pol, _e in assumes(p) if x.k == "cmp" and x.a[0] == "in"):
                    bad = None
                r.ob("missing-reported", f.qual, None if bad is None else not bad, "something missing is reported as %s" % show(v), f)
    # commands and the help on them
    me, built = setup(r)
    table = V("attr", me, "handlers")
    for h, st, own in built:
        for fn, arg in [(h, None)] + [(o, V("sym", "data")) for o in own]:
            for p in r.call(r.walker(opaque=QUIET | {"CommandQueueDaemon.register_consumer"}, loop=(0, 1, 2), track_reads=True, try_raise=False), fn, [arg if arg is not None else V("sym", "queued")], st=st):
                no_insert(r, "no-entry-created", p, table, fn.a[0].qual)
    r.ob("tables", "tables that create entries", len(dd) >= 1 or None, "none found", "")
    r.require("changes-nothing")
