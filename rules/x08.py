"""X08: every command interface hands on the command it was given and answers with that command's own result."""
from rules._daemon import *

EXECUTE = {"CommandQueueDaemon.execute", "CommandQueueDaemon.enqueue"}


def part(v, i):
    t = tup(v, i)
    return t if t is not None else V("item", v, const(i))


def decodes(e):
    return e.kind == "call" and e.fi is None and e.name.split(".")[-1] in ("loads", "load", "decode", "raw_decode")


def texts(e):
    """Ways in which reading a text sent by a peer fails."""
    if e.fi is None and e.name.split(".")[-1] in ("loads", "load", "raw_decode"):
        return ["json.decoder.JSONDecodeError", "UnicodeDecodeError", "ValueError", "RecursionError"]
    return []


def websocket(r):
    f = r.func("vtelem.factories.websocket_daemon", "commandable_websocket_daemon")
    C = r.cls("WebsocketDaemon")
    done = set()
    for p in r.paths(f, r.walker(opaque=QUIET | {"WebsocketDaemon.__init__"})):
        if p.kind == "exc":
            continue
        for e in p.events:
            if e.kind != "new" or e.name != C.name:
                continue
            h = e.kw.get("message_consumer")
            if h is None or h.k not in ("func", "bound"):
                r.ob("answered", f.qual, None, "the message consumer is %s" % show(h), e)
                continue
            if h not in done:
                done.add(h)
                consumer(r, h, p)
    r.ob("answered", f.qual, bool(done) or None, "no command interface is made", f)
    # each message of a connection is given to the consumer
    mod = r.p.modules.get("vtelem.daemon.websocket")
    g = r.func("vtelem.daemon.websocket", "create_default_handler")
    for p in r.paths(g, r.walker()):
        if p.kind == "exc" or p.val is None or p.val.k not in ("func", "bound"):
            r.ob("every-message", g.qual, None, "the handler made is %s" % show(p.val), g)
            continue
        fi = p.val.a[0]
        ws, path = V("sym", fi.params[0]), V("sym", fi.params[1])
        cons = V("sym", g.params[0])
        n = 0
        for q in r.call(r.walker(opaque=QUIET), p.val, [ws, path], st=p.st.fork()):
            its = [e for e in q.events if e.kind == "iter"]
            calls = [e for e in q.events if e.kind == "call" and e.fn == cons]
            waits = [e.val for e in q.events if e.kind == "await"]
            if q.kind == "exc":
                continue
            if not its and not calls:
                continue
            n += 1
            if len({e.args[0] for e in its if e.args} - {ws}) or not its:
                r.ob("every-message", fi.qual, None, "messages are not iterated", fi)
                continue
            r.ob("every-message", fi.qual, [e.args[1] if len(e.args) > 1 else None for e in calls] == [e.val for e in its] and all(e.args[0] == ws for e in calls), "%d of %d messages are consumed" % (len(calls), len(its)), fi)
            r.ob("every-message", fi.qual, all(e.val in waits for e in calls), "a message's consumer is not awaited", fi)
            r.ob("every-message", fi.qual, not left_early(q, ws), "messages are left unread", fi)
        r.ob("every-message", fi.qual, n > 0 or None, "no message is consumed", fi)


def consumer(r, h, p):
    fi = h.a[0]
    name = fi.qual
    args = [V("sym", x) for x in (fi.params if h.k == "func" else fi.params[1:])]
    ws, message = args[0], args[1]
    answered = 0
    for q in r.call(r.walker(opaque=QUIET | EXECUTE, raises=texts), h, args, st=p.st.fork()):
        sends = [e for e in q.events if e.kind == "call" and e.name == "send" and e.recv == ws]
        ex = [e for e in q.events if e.kind == "call" and e.fi is not None and e.fi.qual in EXECUTE]
        okex = [e for e in ex if e.val is None or e.val.k != "exc"]
        if q.kind == "exc":
            last = [e for e in q.events if e.kind == "call"]
            own = last and (last[-1] in sends or last[-1].fi is not None)
            r.ob("answered", name, True if own else False, "a message which cannot be read (%s) is not answered" % q.exc_name, fi)
            continue
        waits = [e.val for e in q.events if e.kind == "await"]
        r.ob("answered", name, len(sends) == 1 and sends[0].val in waits, "a message is answered %d times" % len(sends), fi)
        r.ob("executed-once", name, len(ex) <= 1, "a command is executed %d times" % len(ex), fi)
        loads = [e for e in q.events if decodes(e) and e.val.k != "exc"]
        for e in ex:
            src = [x for x in loads if x.val == e.args[0]]
            r.ob("own-command", name, bool(src) and mentions(src[0].args[0], message), "%s is executed" % show(e.args[0]), e)
        if len(sends) != 1:
            continue
        dumps = [e for e in q.events if e.kind == "call" and e.fi is None and e.name.split(".")[-1] == "dumps" and sends[0].args and mentions(sends[0].args[0], e.val)]
        if len(dumps) != 1:
            r.ob("own-result", name, None, "the answer is %s" % show(sends[0].args[0] if sends[0].args else None), sends[0])
            continue
        D = dumps[0].args[0]
        ok, msg = q.st.store.get(("I", D, const("success"))), q.st.store.get(("I", D, const("message")))
        if any(D in k for k in p.st.store):  # made before the message came, and so shared between messages
            fresh_ok = any(e.kind == "store" and e.recv == D and is_const(e.args[0], "success") for e in q.events)
            r.ob("failure-answered", name, fresh_ok, "the success of an earlier command is answered", sends[0])
        if okex:
            answered += 1
            v = okex[0].val
            r.ob("own-result", name, None if ok is None and D.k != "obj" else ok is not None and ok == part(v, 0), "the success of a command is answered as %s" % show(ok), sends[0])
            r.ob("own-result", name, None if msg is None and D.k != "obj" else msg is not None and msg == part(v, 1), "the message of a command is answered as %s" % show(msg), sends[0])
        else:
            r.ob("failure-answered", name, None if ok is None and D.k != "obj" else ok is not None and is_const(ok) and not cval(ok), "a message which is no command is answered with %s" % show(ok), sends[0])
    r.ob("own-result", name, answered > 0, "no command is ever executed", fi)


def http(r):
    reg = r.func("vtelem.factories.telemetry_server", "register_http_handlers")
    found = {}
    for p in r.paths(reg, r.walker(opaque=QUIET | {"HttpDaemon.add_handler"})):
        for e in p.events:
            if e.kind == "call" and e.name == "add_handler":
                pa, h = e.arg(1, "path"), e.arg(2, "handle")
                if pa is not None and is_const(pa, "command") and h is not None and h.k in ("func", "bound"):
                    m = e.arg(0, "request_type")
                    found.setdefault(h, (p.st, set()))[1].add(cval(m) if is_const(m) else None)
    methods = set().union(*[m for _, m in found.values()]) if found else set()
    r.ob("http-command", reg.qual, {"GET", "POST"} <= methods or (None if None in methods else False), "commands are accepted by %s only" % sorted(str(m) for m in methods), reg)
    for h, (st, _) in found.items():
        fi = h.a[0]
        name = fi.qual
        args = [V("sym", x) for x in (fi.params if h.k == "func" else fi.params[1:])]
        data = args[-1]
        cmd = V("sym", reg.params[2])
        item = lambda k: V("item", data, k)  # noqa
        OWN = {"vtelem.factories.telemetry_server"}
        ran = 0
        for q in r.call(r.walker(opaque=QUIET | EXECUTE, inline_pred=lambda x, s: x.module.name in OWN), h, args, st=st.fork()):
            if q.kind == "exc":
                continue
            ex = [e for e in q.events if e.kind == "call" and e.fi is not None and e.fi.qual in EXECUTE]
            has = next((pol for _, v, pol, _ in assumes(q) if v == V("cmp", "in", const("command"), data)), None)
            if not ex:
                s = tup(q.val, 0)
                r.ob("failure-answered", name, (has is not True and is_const(s) and not cval(s)) if s is not None else None, "a request whose command is not executed is answered with %s" % show(q.val), fi)
                continue
            ran += 1
            r.ob("executed-once", name, len(ex) == 1 and ex[0].name == "execute", "a command is executed %d times" % len(ex), ex[-1])
            v = ex[0].val
            r.ob("own-result", name, q.val == v or q.val is not None and q.val.k == "tup" and tup(q.val, 0) == part(v, 0) and tup(q.val, 1) == part(v, 1), "%s is answered instead of the command's result" % show(q.val), ex[0])
            X = ex[0].args[0]
            if X != data and X.k != "obj":
                r.ob("own-command", name, None, "%s is executed" % show(X), ex[0])
                continue

            def is_value(val, k):
                return val in (item(k), V("item", item(k), const(0)))

            # the command's own name
            c = q.st.store.get(("I", X, const("command")))
            r.ob("own-command", name, is_value(c, const("command")) if c is not None else (X == data or None), "the command is changed to %s" % show(c), ex[0])
            hasd = next((pol for _, v2, pol, _ in assumes(q) if v2 == V("cmp", "in", const("data"), data)), None)
            d = q.st.store.get(("I", X, const("data")))
            if hasd is True:
                r.ob("own-data", name, is_value(d, const("data")) if d is not None else (X == data or None), "the data given is replaced by %s" % show(d), ex[0])
            if hasd is False:
                if d is None or d.k != "obj":
                    r.ob("own-data", name, None if d is not None else False, "the command has no data", ex[0])
                    continue
                if ("COMP", d) in q.st.store:
                    continue
                at = next(i for i, v2, pol, _ in assumes(q) if v2 == V("cmp", "in", const("data"), data))
                for e in [e for e in q.events[at:] if e.kind == "iter" and e.args and any(x == data for x in subterms(e.args[0]))]:
                    k = key_in(e.val, data)
                    if k is None:
                        r.ob("own-data", name, None, "iteration over %s" % show(e.args[0]), e)
                        continue
                    rest = {"command", "data"}
                    special = [x for x in rest if any(v2.k == "cmp" and v2.a[0] == "==" and pol and k in v2.a and const(x) in v2.a for _, v2, pol, _ in assumes(q))]
                    got = q.st.store.get(("I", d, k))
                    if special:
                        continue
                    r.ob("own-data", name, got is not None and is_value(got, k), "an argument %s" % ("is left out" if got is None else "is given as %s" % show(got)), e)
                early = [e for e in q.events[at:] if e.kind == "iter"]
                if early:
                    r.ob("own-data", name, not left_early(q, early[0].args[0]), "not every argument is handed on", fi)
            # repeated arguments
            for _, v2, pol, e in assumes(q):
                if v2.k == "app" and v2.a[0] == "isinstance" or v2.k == "isinstance":
                    k = next((x.a[1] for x in subterms(v2) if x.k == "item" and x.a[0] == data), None)
                    got = q.st.store.get(("I", data, k)) if k is not None else None
                    if pol and k is not None and X == data:
                        r.ob("own-data", name, got == V("item", item(k), const(0)), "a repeated argument is handed on as %s" % show(got), e if e is not None else fi)
        r.ob("own-result", name, ran > 0, "no command is ever executed", fi)


def key_in(v, data):
    """The key of the entry of `data` an iteration is at."""
    for x in subterms(v):
        if x.k == "key" and x.a[0] == data:
            return x
    if v.k == "elem" and len(v.a) > 1 and mentions(v.a[0], data):
        return V("key", data, v.a[1])
    return None


def check(r):
    r.rule("The message consumer given to the command websocket is walked with any message, reading it failing as json.loads does for texts and bytes: it awaits sending exactly one answer on the connection the message came from; a message which is read is executed exactly once "
           "and the answer's success and message are those of that execution; any other is answered with failure. The connection handler gives every message to its consumer, in order. The HTTP command handler executes the request's data exactly once if it names a command "
           "(with its arguments as the command's data, the first of repeated ones, unless data is given) and returns that execution's result, and answers failure otherwise.")
    r.assume("Sending on a connection fails only when the connection is lost.")
    websocket(r)
    http(r)
    r.require("answered", "own-result", "own-command")
