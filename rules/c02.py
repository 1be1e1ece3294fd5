"""C02: a client reads the stream of exactly the peer it was made for."""
from rules._daemon import *

SELF = V("sym", "self")
CLIENTS = ("TcpClient", "UdpClient", "WebsocketClient", "FileClient")
OWN = QUIET | {"UdpClientManager.add_client", "UdpClientManager.remove_client", "TelemetryClient.update_mtu", "StreamWriter.add_stream", "StreamWriter.remove_stream", "StreamWriter.add_file",
               "FrameProcessor.process", "TelemetryClient.handle_frames", "vtelem.classes.type_primitive:new_default", "vtelem.mtu:get_free_port", "vtelem.mtu:create_udp_socket", "vtelem.mtu:discover_mtu"}


def ctor(fi, st):
    return not (fi.name == "__init__" and fi.cls is not None) and fi.qual not in OWN


def addr(p, h):
    """(address, port) of a host value: its parts, or projections of it."""
    if h is None:
        return None, None
    a, q = p.st.store.get(("A", h, "address")), p.st.store.get(("A", h, "port"))
    if a is None:
        a, q = tup(h, 0), tup(h, 1)
    if a is None and h.k != "obj":
        a, q = V("attr", h, "address"), V("attr", h, "port")
    return a, q


def canon(v):
    """h[0] as h.address, h[1] as h.port."""
    if isinstance(v, V) and v.k == "item" and is_const(v.a[1]) and cval(v.a[1]) in (0, 1) and not isinstance(cval(v.a[1]), bool):
        return V("attr", v.a[0], ("address", "port")[cval(v.a[1])])
    return v


def same_host(p, h, want):
    """Whether h denotes the host `want` (a parameter), a zero port resolved to a free one allowed."""
    if h == want or h is not None and h.k == "app" and h.a[0] in ("star", "tuple", "list") and h.a[1] == want:
        return True
    a, q = (canon(x) for x in addr(p, h))
    if a is None:
        return None
    if a != V("attr", want, "address"):
        return False if not mentions(a, want) else None
    if q == V("attr", want, "port"):
        return True
    zero = any(canon(v.a[1]) == V("attr", want, "port") and is_const(v.a[2], 0) and pol or canon(v) == V("attr", want, "port") and not pol
               for _, v, pol, _ in assumes(p) if v.k in ("cmp",) and v.a[0] == "==" or canon(v) == V("attr", want, "port"))
    return bool(zero and q is not None and any(e.kind == "call" and (e.val == q or mentions(q, e.val)) for e in p.events))


def any_host(p, h):
    a, q = addr(p, h)
    return a is not None and is_const(a) and cval(a) in ("0.0.0.0", "") and is_const(q, 0)


def resolved(p, h):
    """any address, with the port found free."""
    a, q = addr(p, h)
    return a is not None and is_const(a) and cval(a) in ("0.0.0.0", "") and q is not None and any(e.kind == "call" and mentions(q, e.val) for e in p.events)


def app_id_of(env):
    return V("item", V("attr", V("attr", env, "framer"), "primitives"), const("app_id"))


def made(r, f, p, env, what):
    """The client made on a path is the environment's, delivers to the queue handed out, and uses the size given."""
    new = [e for e in p.events if e.kind == "new" and e.name in CLIENTS]
    r.ob("one-client", f.qual, len(new) == 1, "%d clients are made" % len(new), f)
    if len(new) != 1:
        return None
    e = new[0]
    k = e.kw
    r.ob("reads-its-server", f.qual, k.get("channel_registry") == V("attr", env, "channel_registry"), "the client decodes with %s" % show(k.get("channel_registry")), e)
    ids = (app_id_of(env), V("attr", env, "app_id"))
    r.ob("reads-its-server", f.qual, k.get("app_id") in ids, "the client expects the application %s" % show(k.get("app_id")), e)
    if "env" in k:
        r.ob("reads-its-server", f.qual, k["env"] == env, "the client's environment is %s" % show(k["env"]), e)
    if "mtu" in f.params and "mtu" in e.fi.params if e.fi is not None else "mtu" in f.params:
        r.ob("options-kept", f.qual, k.get("mtu") == V("sym", "mtu"), "the client's size limit is %s" % show(k.get("mtu")), e)
    q = k.get("output_stream")
    r.ob("own-queue", f.qual, q is not None and any(x.kind in ("call", "new") and x.val == q and x.name.split(".")[-1] in ("Queue", "get_queue", "SimpleQueue") for x in p.events), "the client delivers to %s" % show(q), e)
    return e


def sockets(r):
    """What TCP and UDP clients connect or bind to, at first and again."""
    for c, word, calls in (("TcpClient", "connects to", ("create_connection",)), ("UdpClient", "listens on", ("create_udp_socket",))):
        f = r.method(c, "__init__")
        want = V("sym", "host")
        n = 0
        for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
            if p.kind == "exc":
                continue
            es = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1].split(":")[-1] in calls]
            r.ob("connects-to", c, len(es) == 1 or None, "%d sockets are made" % len(es), f)
            if len(es) != 1:
                continue
            h = es[0].args[0] if es[0].args else es[0].kw.get("host", es[0].kw.get("address"))
            r.ob("connects-to", c, same_host(p, h, want), "the client %s %s" % (word, show(h)), es[0])
            if c == "UdpClient":
                server = es[0].arg(1, "is_client")
                r.ob("connects-to", c, server is not None and is_const(server) and not cval(server), "the listener connects instead of listening", es[0])
            ini = [e for e in p.events if e.kind == "call" and e.name == "__init__"]
            r.ob("connects-to", c, any(es[0].val in list(e.args) + list(e.kw.values()) for e in ini), "the client does not use the socket made", es[0])
            # the action renewing the socket
            init = [v for k, v in p.st.store.items() if k[0] == "I" and is_const(k[2], "init")]
            for v in init:
                if v.k not in ("func", "bound"):
                    r.ob("reconnects-to", c, None, "the socket is renewed by %s" % show(v), f)
                    continue
                old = V("sym", "a socket")
                for q in r.call(r.walker(inline_pred=ctor, opaque=OWN, try_raise=False), v, [old], st=p.st.fork()):
                    if q.kind == "exc":
                        continue
                    n += 1
                    new = [e for e in q.events if e.kind == "call" and e.name.split(".")[-1].split(":")[-1] in calls]
                    closed = None
                    for _, cv, pol, _ in assumes(q):
                        if cv.k == "cmp" and cv.a[0] in ("==", "<") and any(x.kind == "call" and x.name == "fileno" and x.val in cv.a[1:] for x in q.events):
                            closed = pol
                    if new:
                        h2 = new[-1].args[0] if new[-1].args else None
                        r.ob("reconnects-to", c, h2 == h or same_host(q, h2, want), "the client then %s %s" % (word, show(h2)), new[-1])
                        r.ob("reconnects-to", c, q.val == new[-1].val, "the client goes on with %s" % show(q.val), new[-1])
                        r.ob("reconnects-to", c, closed is not False, "a connection which is still open is given up", new[-1])
                        if c == "UdpClient":
                            server = new[-1].arg(1, "is_client")
                            r.ob("reconnects-to", c, server is not None and is_const(server) and not cval(server), "the listener connects instead of listening", new[-1])
                    else:
                        r.ob("reconnects-to", c, q.val == old, "the client goes on with %s" % show(q.val), f)
                        r.ob("reconnects-to", c, closed is not True, "a closed socket is used again", f)
        r.ob("reconnects-to", c, n > 0 or None, "the socket is never renewed", f)


def websocket(r):
    """Where the websocket client connects to."""
    C = r.cls("WebsocketClient")
    init = r.method("WebsocketClient", "__init__")
    host, path = V("sym", "host"), V("sym", "uri_path")
    n = 0
    for fi in r.p.functions:
        top = fi
        while top.parent is not None:
            top = top.parent
        if top.cls is not C or fi is top or not fi.is_async:
            continue
        for p in r.paths(fi, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
            for e in p.events:
                if e.kind != "call" or not (e.name == "connect" or e.name.endswith(".connect")) or e.fi is not None:
                    continue
                n += 1
                u = e.args[0] if e.args else e.kw.get("uri")
                s = uri(u, p)
                if s is None:
                    r.ob("connects-to", C.name, None, "the address connected to is %s" % show(u), e)
                    continue
                secure = next((pol for _, v, pol, _ in assumes(p) if v == V("sym", "secure")), None)
                A, P = (V("attr", host, "address"), V("item", host, const(0))), (V("attr", host, "port"), V("item", host, const(1)))
                got = [x for x in s]
                want = [("wss://" if secure else "ws://"), "A", ":", "P", "U"]
                norm = ["A" if x in A else "P" if x in P else "U" if x == path else x for x in got]
                merged = []
                for x in norm:
                    if isinstance(x, str) and x not in ("A", "P", "U") and merged and merged[-1] not in ("A", "P", "U"):
                        merged[-1] += x
                    else:
                        merged.append(x)
                ok = merged == want if all(isinstance(x, str) for x in merged) and secure is not None else None
                r.ob("connects-to", C.name, ok, "the client connects to %s%s" % (show(u), "" if secure is None else " when %ssecured" % ("" if secure else "not ")), e)
    r.ob("connects-to", C.name, n > 0, "the client never connects", init)


def uri(v, p):
    """The parts of a text: constants as str, values as they are."""
    if v is None:
        return None
    if is_const(v):
        return [cval(v)] if isinstance(cval(v), str) else [str(cval(v))]
    if v.k == "fstr":
        out = []
        for x in v.a:
            x = x if isinstance(x, V) else const(x)
            y = uri(x, p)
            if y is None:
                return None
            out += y
        return out
    if v.k == "bin" and v.a[0] == "+":
        a, b = uri(v.a[1], p), uri(v.a[2], p)
        return None if a is None or b is None else a + b
    if v.k == "app" and v.a[0] == "str" and len(v.a) == 2:
        return [v.a[1]]
    return [v]


def servers(r):
    """What servers listen on."""
    want = V("sym", "address")
    for c, calls in (("TcpTelemetryDaemon", ("ThreadingTCPServer", "TCPServer")), ("HttpDaemon", ("ThreadingHTTPServer", "HTTPServer"))):
        f = r.method(c, "__init__")
        for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
            if p.kind == "exc":
                continue
            es = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] in calls]
            r.ob("listens-on", c, len(es) == 1 or None, "%d servers are made" % len(es), f)
            for e in es:
                h = e.args[0] if e.args else e.kw.get("server_address")
                none = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "is", want, NONE)), None)
                r.ob("listens-on", c, any_host(p, h) if none else h == want or same_host(p, h, want), "the server listens on %s" % show(h), e)
                r.ob("listens-on", c, p.st.store.get(("A", SELF, "server")) == e.val, "the server made is not the one kept", e)
    f = r.method("WebsocketDaemon", "__init__")
    n = 0
    for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
        if p.kind == "exc":
            continue
        h = p.st.store.get(("A", SELF, "address"))
        none = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "is", want, NONE)), None)
        a, q = addr(p, h)
        r.ob("listens-on", "WebsocketDaemon", resolved(p, h) if none else same_host(p, h, want), "the server's address is %s" % show(h), f)
        # clients are made from this address: the port must be one
        zero = None
        for _, v, pol, _ in assumes(p):
            if v.k == "cmp" and v.a[0] == "==" and canon(v.a[1]) == V("attr", want, "port") and is_const(v.a[2], 0):
                zero = pol
            if canon(v) == V("attr", want, "port"):
                zero = not pol
        known = q is not None and not is_const(q, 0) and (zero is False or any(e.kind == "call" and mentions(q, e.val) for e in p.events))
        r.ob("address-known", "WebsocketDaemon", known, "the port clients are told may be none: the one listened on is then another", f)
    C = r.cls("WebsocketDaemon")
    A = V("attr", SELF, "address")
    for fi in r.p.functions:
        top = fi
        while top.parent is not None:
            top = top.parent
        if top.cls is not C or fi is top or not fi.is_async:
            continue
        for p in r.paths(fi, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
            for e in p.events:
                if e.kind == "call" and e.fi is None and e.name.split(".")[-1] == "serve":
                    n += 1
                    h, q = e.arg(1, "host"), e.arg(2, "port")
                    if h is not None and h.k == "app" and h.a[0] == "star":
                        h, q = V("item", h.a[1], const(0)), V("item", h.a[1], const(1))
                    ok = canon(h) == V("attr", A, "address") and canon(q) == V("attr", A, "port") if h is not None and q is not None else False
                    r.ob("listens-on", "WebsocketDaemon", ok, "the server listens on %s:%s" % (show(h), show(q)), e)
    r.ob("listens-on", "WebsocketDaemon", n > 0, "the server never listens", f)


def check(r):
    r.rule("Walking the functions making clients: each makes one, with the channel registry, application identifier and environment of the server's own environment, the queue it hands out, the size and options given, for the address the server listens on (or the port or file it registers with the writer, once, before handing it out). "
           "TCP and UDP clients open their first socket for the host given (a zero port resolved), and renew it, exactly when it is closed, for that same host; the websocket client connects to the host, port and path given, secured exactly when asked. "
           "Servers listen on the address given, or any when none is; a websocket server's address always names the port it listens on.")
    r.assume("server_address of a socket server is the address it is bound to.")
    env = V("attr", SELF, "env")
    # servers' own clients
    for c in ("TcpTelemetryDaemon", "WebsocketTelemetryDaemon"):
        f = r.method(c, "client")
        n = 0
        for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
            if p.kind == "exc":
                continue
            e = made(r, f, p, env, c)
            if e is None:
                continue
            n += 1
            r.ob("own-queue", f.qual, tup(p.val, 0) == e.val and tup(p.val, 1) == e.kw.get("output_stream"), "the client and its queue are answered as %s" % show(p.val), e)
            h = e.kw.get("host")
            if c == "TcpTelemetryDaemon":
                b = V("attr", V("attr", SELF, "server"), "server_address")
                a, q = addr(p, h)
                ok = h == b or a == V("item", b, const(0)) and q == V("item", b, const(1))
            else:
                b = V("attr", SELF, "address")
                a, q = addr(p, h)
                ok = h == b or canon(a) == V("attr", b, "address") and canon(q) == V("attr", b, "port") if h is not None else False
            r.ob("reads-its-server", f.qual, ok, "the client is for %s" % show(h), e)
            for k in [x for x in f.params[1:] if x in e.kw]:
                r.ob("options-kept", f.qual, e.kw[k] == V("sym", k), "'%s' is %s" % (k, show(e.kw[k])), e)
            for k in [x for x in f.params[1:] if x not in e.kw]:
                r.ob("options-kept", f.qual, any(x.kind in ("call", "write") and (V("sym", k) in (x.args or ()) or x.val == V("sym", k)) for x in p.events), "'%s' is not used" % k, e)
            if "secure" in e.kw:
                r.ob("options-kept", f.qual, e.kw["secure"] == V("attr", SELF, "secure"), "the client is secured as %s" % show(e.kw["secure"]), e)
        r.ob("one-client", f.qual, n > 0, "no client is made", f)
    # a listener of its own
    f = r.func("vtelem.client.udp", "create")
    man, env2 = V("sym", f.params[0]), V("sym", f.params[1])
    n = 0
    for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
        e = made(r, f, p, env2, "udp") if any(x.kind == "yield" for x in p.events) else None
        if e is None:
            continue
        n += 1
        y = [i for i, x in enumerate(p.events) if x.kind == "yield"]
        adds = [(i, x) for i, x in enumerate(p.events) if x.kind == "call" and x.name == "UdpClientManager.add_client" or x.kind == "call" and x.name == "add_client"]
        r.ob("registered", f.qual, len(adds) == 1 and adds[0][0] < y[0], "the listener is registered %d times before it is handed out" % len([1 for i, _ in adds if i < y[0]]), e)
        for i, a in adds:
            h = a.args[0] if a.args else a.kw.get("host")
            r.ob("reads-its-server", f.qual, h == e.kw.get("host") and h is not None, "telemetry is sent to %s but read from %s" % (show(h), show(e.kw.get("host"))), a)
            ups = [(j, x) for j, x in enumerate(p.events) if x.kind == "call" and x.name.split(".")[-1] == "update_mtu" and j > i]
            r.ob("options-kept", f.qual, bool(ups) and ups[-1][1].args[0] in (V("item", a.val, const(1)), tup(a.val, 1)) and ups[-1][0] < y[0], "the client does not learn the size found", a)
        v = p.events[y[0]].val if p.events[y[0]].val is not None else (p.events[y[0]].args or (None,))[0]
        out = [x for x in (p.events[y[0]].args or ())] + [p.events[y[0]].val]
        ok = any(x is not None and tup(x, 0) == e.val and tup(x, 1) == e.kw.get("output_stream") for x in out)
        r.ob("own-queue", f.qual, ok, "the client and its queue are handed out as %s" % show(v), e)
    r.ob("one-client", f.qual, n > 0, "no client is made", f)
    f = r.func("vtelem.client.file", "create")
    wr, env3 = V("sym", f.params[0]), V("sym", f.params[1])
    n = 0
    for p in r.paths(f, r.walker(inline_pred=ctor, opaque=OWN, try_raise=False)):
        e = made(r, f, p, env3, "file") if any(x.kind == "yield" for x in p.events) else None
        if e is None:
            continue
        n += 1
        y = [i for i, x in enumerate(p.events) if x.kind == "yield"]
        task = e.kw.get("task")
        path = p.st.store.get(("A", task, "path"))
        adds = [(i, x) for i, x in enumerate(p.events) if x.kind == "call" and x.name.split(".")[-1] == "add_file" and x.recv == wr]
        r.ob("registered", f.qual, len(adds) == 1 and adds[0][0] < y[0], "the file is registered %d times before its client is handed out" % len([1 for i, _ in adds if i < y[0]]), e)
        for i, a in adds:
            h = a.args[0] if a.args else a.kw.get("path")
            r.ob("reads-its-server", f.qual, path is not None and h == path, "telemetry is written to %s but read from %s" % (show(h), show(path)), a)
            fl = a.kw.get("flush", a.args[1] if len(a.args) > 1 else None)
            r.ob("registered", f.qual, fl is not None and is_const(fl) and bool(cval(fl)) or (None if fl is not None and not is_const(fl) else False), "frames stay in the writer's buffer, unread", a)
        start, most = p.st.store.get(("A", task, "byte_index")), p.st.store.get(("A", task, "max_frames"))
        r.ob("options-kept", f.qual, start is not None and is_const(start, 0) and most == V("sym", "max_frames"), "the client reads from %s at most %s frames" % (show(start), show(most)), e)
        out = [x for x in (p.events[y[0]].args or ())] + [p.events[y[0]].val]
        r.ob("own-queue", f.qual, any(x is not None and tup(x, 0) == e.val and tup(x, 1) == e.kw.get("output_stream") for x in out), "the client and its queue are handed out as %s" % ", ".join(show(x) for x in out if x is not None), e)
    r.ob("one-client", f.qual, n > 0, "no client is made", f)
    sockets(r)
    websocket(r)
    servers(r)
    r.require("reads-its-server", "own-queue", "connects-to", "listens-on")
