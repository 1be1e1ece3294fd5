"""X07: a command does what its operation says to exactly what it names."""
from rules._daemon import *
from rules.e07 import command_does
from rules.x03 import FALSY, LOOK, SETTERS, handlers

TRUTHY = lambda v: v is not None and is_const(v) and bool(cval(v))  # noqa
UDP = {"UdpClientManager.add_client", "UdpClientManager.remove_client", "UdpClientManager.client_name", "UdpClientManager.add_clients", "UdpClientManager.remove_all"}
DAE = {"DaemonManager.perform_str", "DaemonManager.perform", "DaemonManager.perform_all", "DaemonManager.perform_str_all", "DaemonManager.states"}


def plain(v):
    """v without conversions to lower case or text."""
    while isinstance(v, V) and v.k == "app" and v.a[0] in ("m:lower", "m:strip", "str") and len(v.a) == 2:
        v = v.a[1]
    return v


def operation(p, cmd):
    """The operation the path has found the command to ask for (None: none of those tested)."""
    want = V("item", cmd, const("operation"))
    got = None
    for _, v, pol, _ in assumes(p):
        if v.k == "cmp" and v.a[0] == "==" and pol:
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if plain(a) == want and is_const(b):
                    got = cval(b)
    return got


def given(p, cmd, key):
    """Whether the path found the key in the command."""
    for _, v, pol, _ in assumes(p):
        if v == V("cmp", "in", const(key), cmd):
            return pol
    return None


def vals(p, recv_name, *args):
    return {e.val for e in p.events if e.kind == "call" and e.name == recv_name and list(e.args[:len(args)]) == list(args)}


def channel_ids(p, cmd):
    by_id = {V("item", cmd, const("channel_id"))} | vals(p, "get", const("channel_id"))
    names = {V("item", cmd, const("channel_name"))} | vals(p, "get", const("channel_name"))
    by_name = {e.val for e in p.events if e.kind == "call" and e.name == "get_id" and e.args and e.args[0] in names}
    return by_id, by_name


def same(v, ids):
    return v in ids or v is not None and v.k == "app" and v.a[0] == "int" and v.a[1] in ids


def channels(r, h, st, top):
    fi = h.a[0]
    name = fi.qual
    command = r.method("Channel", "command")
    w = r.walker(opaque=QUIET | SETTERS | LOOK | {"Channel.command", "ChannelEnvironment.has_channel"}, max_paths=8000)
    args = [V("sym", x) for x in (fi.params if h.k == "func" else fi.params[1:])]
    cmd = args[-1]
    reached = set()
    for p in r.call(w, h, args, st=st.fork()):
        if p.kind == "exc":
            continue
        op = operation(p, cmd)
        s, msg = tup(p.val, 0), tup(p.val, 1)
        calls = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is command]
        sets = [e for e in p.events if e.kind == "call" and e.fi is not None and e.fi.qual in SETTERS]
        if op not in ("set", "increment", "decrement"):
            r.ob("changes-only-when-asked", name, not calls and not sets, "operation '%s' changes a channel" % op, calls[0][1] if calls else sets[0] if sets else fi)
        if op is None:
            r.ob("unknown-refused", name, FALSY(s) if s is not None and s.k == "const" else (None if s is None else False), "an unknown operation is answered with %s" % show(s), fi)
        by_id, by_name = channel_ids(p, cmd)
        acts = calls + [(p.events.index(e), e) for e in p.events if e.kind == "call" and (e.name == "get_item" and e.recv is not None and show(e.recv).endswith("channel_registry") or e.name in ("get_value", "get_enum_value") and e.recv is not None and e.fi is not None and e.fi.cls is not None and e.fi.cls.name.endswith("Environment"))]
        for i, e in acts:
            if e.fi is command:
                src = [x for x in p.events[:i] if x.kind == "call" and x.val == e.recv and x.name == "get_item"]
                key = src[-1].args[0] if src and src[-1].args else None
            else:
                key = e.args[0] if e.args else None
            if key is None:
                r.ob("channel-named", name, None, "the channel used is %s" % show(e.recv), e)
                continue
            r.ob("channel-named", name, same(key, by_id) or same(key, by_name), "the channel used is %s, not the one named" % show(key), e)
            both = given(p, cmd, "channel_name") and given(p, cmd, "channel_id")
            if both and e.fi is command:
                eq = any(v.k == "cmp" and v.a[0] == "==" and pol and (same(v.a[1], by_id) and same(v.a[2], by_name) or same(v.a[1], by_name) and same(v.a[2], by_id)) for _, v, pol, _ in assumes(p, i))
                r.ob("name-and-id-agree", name, eq, "a channel is changed though its name and identifier may disagree", e)
        value = {V("item", cmd, const("value"))} | vals(p, "get", const("value"))
        has = given(p, cmd, "value")
        for i, e in calls:
            reached.add(op)
            v, add = e.arg(0, command.params[1]), e.arg(2, command.params[3])
            is_add = TRUTHY(add)
            enum = {x.val for x in p.events[:i] if x.kind == "call" and x.name == "get_value" and x.args and x.args[0] in value}
            if op == "set":
                r.ob("operation-done", name, (v in value or v in enum) and (add is None or FALSY(add)), "set gives the channel %s%s" % (show(v), " more" if is_add else ""), e)
            elif op in ("increment", "decrement"):
                base = const(1) if has is False else (V("item", cmd, const("value")) if has else None)
                want = None if base is None else (base if op == "increment" else V("app", "neg", base))
                ok = None
                if base is not None:
                    ok = lin_same(v, base, 1 if op == "increment" else -1)
                elif v is not None:
                    ok = None
                r.ob("operation-done", name, is_add and ok if is_add else False, "%s %s %s" % (op, "adds" if is_add else "sets", show(v)), e)
        if op == "get" and TRUTHY(s):
            reached.add("get")
            items = {e.val for e in p.events if e.kind == "call" and e.name in ("get_item", "get_enum_value", "get_value", "get_str")}
            r.ob("operation-done", name, msg is not None and any(mentions(msg, x) for x in items), "get answers %s" % show(msg), fi)
    for op in ("set", "get", "increment", "decrement"):
        r.ob("operation-known", name, op in reached, "operation '%s' does nothing" % op, fi)


def lin_same(v, base, sign):
    if v is None:
        return False
    a, ca = lin(v)
    b, cb = lin(base)
    return a == {k: sign * c for k, c in b.items()} and ca == sign * cb


def daemons(r, h, st, top):
    fi = h.a[0]
    name = fi.qual
    w = r.walker(opaque=QUIET | DAE, max_paths=8000)
    args = [V("sym", x) for x in (fi.params if h.k == "func" else fi.params[1:])]
    cmd = args[-1]
    asked = V("item", cmd, const("operation"))
    listed = V("item", cmd, const("daemons"))
    n = 0
    for p in r.call(w, h, args, st=st.fork()):
        if p.kind == "exc":
            continue
        s = tup(p.val, 0)
        calls = [e for e in p.events if e.kind == "call" and e.fi is not None and e.fi.qual in DAE and e.name != "states"]
        every = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "in", const("all"), listed)), None)
        for e in calls:
            n += 1
            o = e.arg(0 if e.name.endswith("_all") else 1, "operation")
            r.ob("operation-done", name, True if plain(o) == asked else (None if o is not None and mentions(o, asked) or o is not None and o.k == "enum" else False), "operation %s is performed" % show(o), e)
            if e.name.endswith("_all"):
                r.ob("daemon-named", name, every, "every daemon is operated on", e)
                continue
            d = e.arg(0, "name")
            r.ob("daemon-named", name, True if d is not None and (mentions(d, listed) or every and any(x.kind == "call" and x.name == "states" and mentions(d, x.val) for x in p.events)) else False,
                 "daemon %s is operated on" % show(d), e)
            if every is False:
                r.ob("daemon-named", name, d is not None and mentions(d, listed), "a daemon which was not named is operated on", e)
        per = [e for e in calls if not e.name.endswith("_all")]
        its = [e for e in p.events if e.kind in ("iter", "compiter") and e.args and any(mentions(e.args[0], x) for x in [listed] + [c.val for c in p.events if c.kind == "call" and c.name == "states"])]
        if per:
            got = [e.arg(0, "name") for e in per]
            r.ob("daemon-named", name, got == [e.val for e in its[-len(got):]] or (False if len(its) == len(got) > 1 and len(set(got)) < len(got) else None), "%s are operated on" % ", ".join(show(x) for x in got), per[-1])
        its = [e for e in its if any(c.arg(0, "name") == e.val for c in per) and e.kind == "iter"]
        if per and its:
            r.ob("daemon-named", name, not left_early(p, its[0].args[0]), "not every daemon named is operated on", fi)
        if per and s is not None and s.k == "const":
            known = {e.val: next((pol for _, v, pol, _ in assumes(p) if v == e.val), None) for e in per}
            if cval(s):
                r.ob("all-must-succeed", name, all(k is True for k in known.values()), "success is answered though an operation may have failed", fi)
            else:
                r.ob("all-must-succeed", name, any(k is False for k in known.values()), "failure is answered though every operation succeeded", fi)
    r.ob("operation-known", name, n > 0, "no operation is ever performed", fi)
    # the same daemon named twice: neither result may stand for the other
    one = V("sym", "a daemon")
    s0 = st.fork()
    w = r.walker(opaque=QUIET | DAE, max_paths=8000)
    s0.store[("I", cmd, const("daemons"))] = w.new_list([one, one], s0)
    for p in r.call(w, h, args, st=s0):
        per = [e for e in p.events if e.kind == "call" and e.fi is not None and e.fi.qual in DAE and e.name != "states"]
        s = tup(p.val, 0) if p.kind != "exc" else None
        if s is not None and s.k == "const" and cval(s) and len(per) == 2 and all(e.arg(0, "name") == one for e in per):
            known = [next((pol for _, v, pol, _ in assumes(p) if v == e.val), None) for e in per]
            r.ob("all-must-succeed", name, all(k is True for k in known), "success is answered though an operation on a daemon named twice may have failed", fi)


def clients(r, h, st, top):
    fi = h.a[0]
    name = fi.qual
    w = r.walker(opaque=QUIET | UDP, max_paths=8000, dict_errors=False)
    args = [V("sym", x) for x in (fi.params if h.k == "func" else fi.params[1:])]
    cmd = args[-1]
    item = lambda k: V("item", cmd, const(k))  # noqa
    reached = set()
    for p in r.call(w, h, args, st=st.fork()):
        op = operation(p, cmd)
        s, msg = (tup(p.val, 0), tup(p.val, 1)) if p.kind != "exc" else (None, None)
        adds = [e for e in p.events if e.kind == "call" and e.name in ("add_client", "add_clients")]
        rems = [e for e in p.events if e.kind == "call" and e.name in ("remove_client", "remove_all")]
        r.ob("changes-only-when-asked", name, (op == "add" or not adds) and (op == "remove" or not rems), "operation '%s' %s" % (op, "adds a client" if adds else "removes a client"), (adds + rems or [fi])[0])
        for e in adds:
            hv = e.args[0] if e.args else e.kw.get("host")
            ha, po = p.st.store.get(("A", hv, "address")), p.st.store.get(("A", hv, "port"))
            if ha is None:
                ha, po = tup(hv, 0), tup(hv, 1)
            ok = None if ha is None else ha == item("host") and (po == item("port") or po is not None and po.k == "app" and po.a[0] == "int" and po.a[1] == item("port"))
            r.ob("operation-done", name, ok if e.name == "add_client" else None, "a client for %s, %s is added" % (show(ha), show(po)), e)
        for e in rems:
            x = e.args[0] if e.args else e.kw.get("sock_id")
            r.ob("operation-done", name, e.name == "remove_client" and same(x, {item("id")}), "client %s is removed" % show(x), e)
        if p.kind == "exc":
            continue
        if op is None:
            r.ob("unknown-refused", name, FALSY(s) if s is not None and s.k == "const" else None, "an unknown operation is answered with %s" % show(s), fi)
        if not TRUTHY(s):
            if s is not None and s.k == "const":
                r.ob("refused-quietly", name, not adds and not rems, "a failed operation changed the clients", (adds + rems or [fi])[0])
            continue
        reached.add(op)
        if op in ("add", "remove"):
            r.ob("operation-done", name, len(adds if op == "add" else rems) == 1, "'%s' succeeds having %s %d clients" % (op, "added" if op == "add" else "removed", len(adds or rems)), fi)
        if op == "add" and adds:
            new = V("item", adds[0].val, const(0))
            r.ob("client-named", name, msg is not None and mentions(msg, tup(adds[0].val, 0) or new), "the answer does not give the new client's identifier", fi)
        if op == "remove":
            known = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == item("id") and pol for _, v, pol, _ in assumes(p)) or any(v in {e.val for e in rems} and pol for _, v, pol, _ in assumes(p))
            r.ob("client-named", name, known, "removing succeeds for a client which is not known", fi)
        if op == "list":
            one = given(p, cmd, "id")
            names = [e for e in p.events if e.kind == "call" and e.name == "client_name"]
            if one:
                r.ob("client-named", name, len(names) == 1 and same(names[0].args[0], {item("id")}), "a list of one client gives %d" % len(names), fi)
            its = [e for e in p.events if e.kind == "iter" and e.args and any(same(c.args[0], {e.val}) for c in names)]
            if its:
                r.ob("client-named", name, not left_early(p, its[0].args[0]), "not every client is listed", fi)
            for e in p.events:
                if e.kind == "store" and e.recv is not None and e.recv.k == "obj" and e.args:
                    src = [c for c in names if mentions(e.val, c.val)]
                    r.ob("client-named", name, (src[0].args[0] == e.args[0]) if src else None, "client %s is listed with the address of another" % show(e.args[0]), e)
    for op in ("add", "remove", "list"):
        r.ob("operation-known", name, op in reached, "operation '%s' never succeeds" % op, fi)


KINDS = {"telemetry_environment": channels, "daemon_manager": daemons, "udp_client_manager": clients}


def check(r):
    r.rule("Every command handler the library registers is walked with any command: the operation found decides what is done. A channel is changed only by set (to the value given, converted by the channel's enumeration), increment or decrement "
           "(by the value given, or one, with that sign), and the channel is the one registered under the name or identifier given, which must agree when both are; a channel's own command function sets or adds as it is told. The daemon command performs the operation asked for once on each daemon named, or on each known when all are, "
           "and succeeds only if each did. The udp command adds a client for the host and port given, removes or lists the client named; anything else is refused and changes nothing.")
    command_does(r)
    seen = set()
    for h, st, top in handlers(r):
        kind = top.module.name.split(".")[-1]
        fn = KINDS.get(kind)
        if fn is None:
            r.ob("operation-done", top.qual, None, "a command the rule does not know", top)
            continue
        seen.add(kind)
        fn(r, h, st, top)
    for k in KINDS:
        r.ob("registered", k, k in seen, "the %s command is not registered" % k, r.method("CommandQueueDaemon", "register_consumer"))
    r.require("operation-done", "operation-known")
