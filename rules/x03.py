"""X03: commands never change a channel that is not commandable."""
import ast

from rules._daemon import *

SETTERS = {"TypePrimitive.set", "TypePrimitive.add", "TypePrimitive.load", "ChannelEnvironment.set_now", "TelemetryEnvironment.set_enum_now", "Channel.emit", "Channel.set_rate",
           "ChannelEnvironment.set_channel_rate", "TypePrimitive.__call__"}
LOOK = {"TelemetryEnvironment.is_enum_channel", "ChannelEnvironment.get_value", "TelemetryEnvironment.get_enum_value", "Registry.get_item", "Registry.get_id", "UserEnum.get_value",
        "UserEnum.get_str"}
FALSY = lambda v: v is not None and is_const(v) and not cval(v)  # noqa


def handlers(r):
    """Every handler registered for a command, with the state it was registered in."""
    reg = r.method("CommandQueueDaemon", "register_consumer")
    out = []
    for f in sorted(r.named_callers(reg), key=lambda f: f.qual):
        top = f
        while top.parent is not None:
            top = top.parent
        if top.cls is not None and top.name == "__init__":
            continue  # the daemon's own commands are about commands
        found = 0
        for p in r.paths(top, r.walker(opaque=QUIET | {"CommandQueueDaemon.register_consumer"})):
            for e in p.events:
                if e.kind == "call" and e.name == "register_consumer":
                    h = e.arg(1, "handler")
                    found += 1
                    if h is not None and h.k in ("func", "bound"):
                        if not any(o[0] == h for o in out):
                            out.append((h, p.st, top))
                    else:
                        r.ob("handler", top.qual, None, "handler %s" % show(h), e)
        if not found:
            r.ob("handler", top.qual, None, "no registration reached", top)
    return out


def check(r):
    r.rule("Channel.command touches nothing and returns false unless the path established that the channel is commandable; in every handler registered for a command and every command function of the environments a channel is changed only by "
           "calling its command function, whose result is the one reported; a call adding to the value follows a test that the channel is not an enum channel; "
           "every channel stored as a metric is created with commandable false, which the constructor stores, and nothing else assigns it.")
    chan = r.cls("Channel")
    cmd = r.method("Channel", "command")
    me = V("sym", "self")
    flag = V("attr", me, "commandable")
    n = 0
    for p in r.paths(cmd, r.walker(opaque=QUIET | SETTERS)):
        if p.kind == "exc":
            continue
        acts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.recv == me and e.fi is not None and e.fi.qual in SETTERS or e.kind in ("write", "store", "del") and e.recv == me]
        for i, e in acts:
            n += 1
            ok = any(v == flag and pol for _, v, pol, _e in assumes(p, i))
            r.ob("gate", cmd.qual, ok, "a channel is changed without checking that it is commandable", e)
        if not acts:
            r.ob("gate-fails", cmd.qual, FALSY(p.val) or p.val is not None and p.val == flag and any(v == flag and not pol for _, v, pol, _e in assumes(p)), "a refused command returns %s" % show(p.val), cmd)
        else:
            r.ob("gate-result", cmd.qual, p.val == acts[-1][1].val, "the result of the change is not returned", cmd)
    r.ob("gate-reaches", cmd.qual, n > 0, "a command never changes anything", cmd)
    # constructor
    init = r.method("Channel", "__init__")
    for p in r.paths(init, r.walker(opaque=QUIET | {"TypePrimitive.__init__"})):
        if p.kind == "exc":
            continue
        r.ob("flag-stored", init.qual, p.st.store.get(("A", me, "commandable")) in (V("sym", "commandable"), V("app", "bool", V("sym", "commandable"))), "a channel is not commandable as asked", init)
    for f in r.p.functions:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "commandable" and isinstance(x.ctx, (ast.Store, ast.Del)):
                top = f
                while top.parent is not None:
                    top = top.parent
                r.ob("flag-fixed", f.qual, top is init or r.helper_of(top, {init}), "the commandable flag is changed", "%s:%d" % (f.module.rel, x.lineno))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") and any(isinstance(a, ast.Constant) and a.value == "commandable" for a in x.args):
                r.ob("flag-fixed", f.qual, False, "the commandable flag is changed", "%s:%d" % (f.module.rel, x.lineno))
    # ways a command changes a channel
    units = [(h, st, h.a[0].qual, True) for h, st, _ in handlers(r)]
    for c, names in (("ChannelEnvironment", ("command_channel_id", "command_channel")), ("TelemetryEnvironment", ("command_enum_channel_id", "command_enum_channel"))):
        for nm in names:
            f = r.method(c, nm)
            units.append((V("bound", f, V("sym", "self", ty=("c", r.cls(c)))), None, f.qual, False))
    mods = {"vtelem.channel", "vtelem.channel.environment", "vtelem.telemetry.environment", "vtelem.factories.telemetry_environment", "vtelem.factories.daemon_manager", "vtelem.factories.udp_client_manager",
            "vtelem.classes.type_primitive", "vtelem.classes.time_entity"}
    opaque = QUIET | SETTERS | LOOK | {"Channel.command", "DaemonManager.perform_str", "DaemonManager.states"}
    total = 0
    for fv, st, name, is_handler in units:
        w = r.walker(opaque=opaque, inline_pred=lambda g, s: g.module.name in mods, max_paths=8000)
        fi = fv.a[0]
        args = [V("sym", x) for x in (fi.params if fv.k == "func" else fi.params[1:])]
        for p in r.call(w, fv, args, st=st.fork() if st is not None else None):
            calls = []
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.fi is cmd:
                    calls.append((i, e))
                elif e.kind == "call" and e.fi is not None and e.fi.qual in SETTERS and e.fi.name != "emit" or e.kind == "write" and e.name in ("data", "commandable") and e.recv is not None and e.recv.k != "obj":
                    r.ob("through-command", name, False, "a command changes a channel without the channel's command check", e)
            for i, e in calls:
                total += 1
                r.ob("through-command", name, True, "", e)
                add = e.arg(2, "add")
                if add is None or is_const(add) and not cval(add):
                    continue
                enum = [(v, pol) for _, v, pol, _e in assumes(p, i) if v.k == "call" and "is_enum_channel" in str(v.a[0])]
                other = any(mentions(v, x) for _, v, _p, _e in assumes(p, i) for x in subterms(v) if x.k == "attr" and x.a[1] == "enum_channel_types")
                yes = [x for x in p.events[:i] if x.kind == "call" and x.name == "is_enum_channel" and any(v == x.val and not pol for v, pol in enum)]
                same = [x for x in yes if any(a == y for a in x.args for y in [z for q in p.events[:i] if q.kind == "call" and q.val == e.recv for z in q.args])]
                linked = any(q.kind == "call" and q.val == e.recv and q.args for q in p.events[:i])
                r.ob("enum-not-added", name, True if same else None if other or yes and not linked else False, "an enum channel can be incremented or decremented", e)
            if p.kind == "exc":
                continue
            s = tup(p.val, 0) if is_handler else p.val
            if calls:
                v = calls[-1][1].val
                pol = [pl for _, x, pl, _e in assumes(p) if x == v]
                ok = s == v or s is not None and s.k == "app" and s.a[0] == "bool" and s.a[1] == v or s is not None and is_const(s) and pol and bool(cval(s)) == pol[-1]
                r.ob("reports-result", name, ok if s is not None else None, "the result of the command is reported as %s" % show(s), calls[-1][1])
                r.ob("one-change", name, len(calls) == 1, "a command is applied %d times" % len(calls), calls[-1][1])
            elif any(v.k == "call" and "is_enum_channel" in str(v.a[0]) and pol for _, v, pol, _e in assumes(p)) and not any(x.kind == "call" and x.name == "get_enum_value" for x in p.events):
                r.ob("enum-refused", name, FALSY(s) if s is not None else None, "an operation on an enum channel which does nothing is reported as %s" % show(s), fi)
    r.ob("reaches", "commands", total > 0, "no command reaches a channel", cmd)
    # metric channels
    adders = {"ChannelEnvironment.add_channel": 5, "TelemetryEnvironment.add_enum_channel": 5}
    found = 0
    for f in r.p.functions:
        if f.cls is None or not any(isinstance(x, ast.Attribute) and x.attr == "metrics" for x in ast.walk(f.node)) or f.parent is not None:
            continue
        if not r.p.is_sub(f.cls, r.cls("ChannelEnvironment")):
            continue
        if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Attribute) and x.attr in ("setdefault", "update", "__setitem__") for x in ast.walk(f.node)):
            continue
        w = r.walker(opaque=(QUIET | set(adders) | LOOK | {"ChannelFramer.__init__", "ChannelEnvironment.__init__", "ChannelEnvironment.set_channel_rate", "ChannelEnvironment.add_metric", "TelemetryEnvironment.add_enum_metric"}) - {f.qual},
                     inline_pred=lambda g, s: g.cls is not None and r.p.is_sub(g.cls, r.cls("ChannelEnvironment")))
        for p in r.paths(f, w):
            for i, e in enumerate(p.events):
                if e.kind == "store" and e.recv == V("attr", me, "metrics"):
                    found += 1
                    src = [x for x in p.events[:i] if x.kind == "call" and x.val == e.val and x.fi is not None]
                    if not src or src[-1].fi.qual not in adders:
                        r.ob("metric-not-commandable", f.qual, None, "a metric is %s" % show(e.val), e)
                        continue
                    c = src[-1].arg(adders[src[-1].fi.qual], "commandable")
                    r.ob("metric-not-commandable", f.qual, FALSY(c), "a metric is created commandable", src[-1])
                elif e.kind == "call" and e.fi is None and e.recv == V("attr", me, "metrics") and e.name in ("setdefault", "update"):
                    found += 1
                    r.ob("metric-not-commandable", f.qual, None, "a metric is created with %s" % e.name, e)
    r.ob("metrics", "ChannelEnvironment", True if found else None, "no metric is created", chan.node and init)
    for q, pos in adders.items():
        c, nm = q.split(".")
        f = r.method(c, nm)
        w = r.walker(opaque=QUIET | LOOK | SETTERS | {"Channel.__init__", "ChannelFramer.add_channel", "ChannelRegistry.add_channel", "ChannelEnvironment.has_channel"} | (set(adders) - {q}))
        for p in r.paths(f, w):
            for e in p.events:
                if e.kind == "new" and e.name == "Channel" or e.kind == "call" and e.fi is not None and e.fi.qual in set(adders) - {q}:
                    a = e.arg(4 if e.kind == "new" else 5, "commandable")
                    r.ob("flag-passed", f.qual, a == V("sym", "commandable"), "the channel is created with commandable %s" % show(a), e)
    r.require("gate", "gate-fails", "through-command", "reports-result", "enum-not-added", "enum-refused", "flag-stored", "reaches")
