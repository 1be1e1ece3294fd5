"""F02: size limits only shrink, come from the path they are for, and leave room for every header."""
import socket
from rules._daemon import *
from rules.g01 import QUIETS
from rules.g03 import ctors, made as g03_made

SELF = V("sym", "self")
IP_UDP = 60 + 8
LINUX = {"IP_MTU": 14, "IP_MTU_DISCOVER": 10, "IP_PMTUDISC_DO": 2, "IPPROTO_IP": 0}


def number(w, v):
    """The integer a socket option is."""
    if v is None:
        return None
    if v.k == "enum":
        x = w.enum_value(v)
        return cval(x) if x is not None and is_const(x) else None
    if is_const(v):
        return cval(v)
    if v.k == "ext":
        n = str(v.a[0]).split(".")[-1]
        return LINUX.get(n, getattr(socket, n, None))
    return None


def name(e):
    return e.name.split(":")[-1].split(".")[-1]


def limits(r):
    """Who changes the size limit of a frame or a frame builder, and how."""
    FR, F = r.cls("Framer"), r.cls("Frame")
    h = r.method("ChannelEnvironment", "handle_new_mtu")
    g = r.graph()
    env = V("sym", "self", ty=("c", r.cls("ChannelEnvironment")))
    new = V("sym", h.params[1])
    old = V("attr", V("attr", SELF, "framer"), "mtu")
    n = 0
    for p in r.call(r.walker(opaque=METRICS, try_raise=False, volatile=("mtu",), track_reads=True), V("bound", h, env), [new]):
        ws = [e for e in p.events if e.kind == "write" and e.name == "mtu"]
        rs = [e for e in p.events if e.kind == "read" and e.name == "mtu"]
        for e in ws + rs:
            n += 1
            r.ob("under-lock", h.qual, any(is_lock(x, SELF) for x in e.locks), "the limit of the frame builder is compared or changed without the lock frames are built under", e)
        for e in ws:
            smaller = any(less(v, pol, new, rs) for _, v, pol, _e in assumes(p, p.events.index(e)))
            r.ob("only-shrinks", h.qual, e.val == new and smaller or minimum(e.val, new, rs), "the limit becomes %s, which may be more than it was" % show(e.val), e)
            r.ob("shrunk", h.qual, e.recv == V("attr", SELF, "framer"), "the limit of %s is changed, not the frame builder's" % show(e.recv), e)
        if p.kind != "exc" and not ws:
            bigger = any(not less(v, pol, new, rs) and any(mentions(v, x.val) or v.k == "cmp" and v.a[0] in ("<", "<=") and mentions(v, new) for x in rs) for _, v, pol, _e in assumes(p))
            r.ob("shrunk", h.qual, bigger, "a smaller limit is not taken", h)
    r.ob("shrunk", h.qual, n > 0, "the limit never changes", h)
    for f, evs in g.evs.items():
        for e in evs:
            if e.kind != "write" or e.name != "mtu" or e.recv is None or f is h or r.private(f) and all(c is h for c in g.callers.get(f, ())) and g.callers.get(f):
                continue
            ci = e.recv.ty[1] if e.recv.ty and e.recv.ty[0] == "c" else f.cls if e.recv == SELF else None
            if ci is None:
                t = r.p.attr_type(e.recv.a[0].ty[1], e.recv.a[1]) if e.recv.k == "attr" and e.recv.a[0].ty and e.recv.a[0].ty[0] == "c" else None
                ci = t[1] if t and t[0] == "c" else None
            if ci is None and e.recv.k == "attr" and e.recv.a[1] == "framer":
                ci = FR
            if ci is None or not (r.p.is_sub(ci, FR) or r.p.is_sub(ci, F)):
                continue
            r.ob("no-other-change", f.qual, f.name == "__init__" and e.recv == SELF, "the limit of %s is changed while it is in use" % show(e.recv), e)
    for c in ("Framer", "Frame"):
        f = r.method(c, "__init__")
        for p in r.paths(f, r.walker(opaque=METRICS | {"new_default", "basis_to_int", "Framer.create_app_id", "Frame.write", "UserEnum.get_primitive"}, try_raise=False, loop=(0, 1))):
            if p.kind == "exc":
                continue
            got = p.st.store.get(("A", SELF, "mtu"))
            r.ob("as-constructed", f.qual, got == V("sym", "mtu"), "something made for a limit keeps %s" % show(got), f)
            for e in p.events if c == "Frame" else ():
                if e.kind == "new" and e.name == "ByteBuffer" and e.val == p.st.store.get(("A", SELF, "buffer")):
                    a = e.args[0] if e.args else None
                    r.ob("as-constructed", "Frame.buffer", None if a is None else V("sym", "mtu") in list(subterms(a)), "the buffer of a frame made for a limit is %s" % show(a), e)


def is_lock(x, me):
    x = x[0] if isinstance(x, tuple) else x
    return isinstance(x, V) and x == V("attr", me, "lock")


def less(v, pol, new, rs):
    """Whether the condition says that the new limit is below the present one."""
    if v.k != "cmp" or v.a[0] not in ("<", "<="):
        return False
    cur = {e.val for e in rs} | {V("attr", V("attr", SELF, "framer"), "mtu")}
    if pol:
        return v.a[1] == new and v.a[2] in cur
    return v.a[1] in cur and v.a[2] == new


def minimum(v, new, rs):
    cur = {e.val for e in rs} | {V("attr", V("attr", SELF, "framer"), "mtu")}
    return v is not None and v.k in ("app", "call") and "min" in str(v.a[0]).split(".") and any(x == new for x in subterms(v)) and any(x in cur for x in subterms(v))


def discovery(r):
    """The limit of a socket's path is asked for after a probe which may not be fragmented."""
    f = r.func("vtelem.mtu", "discover_mtu")
    sock = V("sym", f.params[0])
    w = r.walker(opaque=METRICS | {"build_dummy_frame", "Frame.with_size_header"})
    n = 0
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        opts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and name(e) in ("getsockopt", "setsockopt") and e.val.k != "exc"]
        r.ob("own-socket", f.qual, all(e.recv == sock for _, e in opts), "an option of another socket is used", ([e for _, e in opts if e.recv != sock] + [f])[0])
        res = [(i, e) for i, e in opts if e.val == p.val and name(e) == "getsockopt"]
        r.ob("limit-of-path", f.qual, bool(res) and number(w, res[0][1].arg(1, "optname")) == LINUX["IP_MTU"] and number(w, res[0][1].arg(0, "level")) == 0, "the limit given is %s, not the one known of the socket's path" % show(p.val), res[0][1] if res else f)
        sends = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and name(e) in ("send", "sendall", "sendto")]
        disc = [(i, e) for i, e in opts if name(e) == "setsockopt" and number(w, e.arg(1, "optname")) == LINUX["IP_MTU_DISCOVER"]]
        read = [(i, e) for i, e in opts if name(e) == "getsockopt" and number(w, e.arg(1, "optname")) == LINUX["IP_MTU_DISCOVER"]]
        n += len(sends)
        for i, e in sends:
            last = [x for j, x in disc if j < i][-1:]
            r.ob("probe-whole", f.qual, bool(last) and number(w, last[0].arg(2, "value")) == LINUX["IP_PMTUDISC_DO"], "the probe may be cut into fragments, so it finds no limit", e)
            r.ob("limit-of-path", f.qual, bool(res) and res[0][0] > i, "the limit is asked for before the probe which finds it", res[0][1] if res else f)
            r.ob("probe-size", f.qual, any(e2.kind == "call" and name(e2) == "build_dummy_frame" and e2.arg(0, "overall_size") == V("sym", f.params[1]) for e2 in p.events[:i]), "the probe is not of the size to be probed", e)
        failed = any(e.kind == "catch" for e in p.events)
        r.ob("probed", f.qual, bool(sends) or failed, "no probe is sent", f)
        # the option is as it was
        orig = [e.val for i, e in read if all(j > i for j, _ in disc)]
        ok = not disc or bool(orig) and disc[-1][1].arg(2, "value") in orig
        r.ob("restored", f.qual, ok, "the socket is left with fragmentation forbidden", disc[-1][1] if disc else f)
    r.ob("probed", f.qual, n > 0, "no probe is ever sent", f)

    f = r.func("vtelem.mtu", "discover_ipv4_mtu")
    for p in r.paths(f, r.walker(opaque=METRICS | {"vtelem.mtu:discover_mtu", "vtelem.mtu:create_udp_socket"}, try_raise=False)):
        if p.kind == "exc":
            continue
        made = [e for e in p.events if e.kind == "call" and name(e) == "create_udp_socket"]
        disc = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and name(e) == "discover_mtu"]
        ok = len(made) == 1 and len(disc) == 1 and disc[0][1].arg(0, "sock") == made[0].val and p.val == disc[0][1].val
        r.ob("limit-of-host", f.qual, ok, "the limit to a host is %s, not the one found on a socket to it" % show(p.val), disc[0][1] if disc else f)
        if not ok:
            continue
        h, c = made[0].arg(0, "host"), made[0].arg(1, "is_client")
        r.ob("limit-of-host", f.qual, h == V("sym", f.params[0]) and (c is None or is_const(c) and cval(c) is True), "the socket used is not one sending to the host", made[0])
        r.ob("limit-of-host", f.qual, disc[0][1].arg(1, "probe_size") == V("sym", f.params[1]), "the size to be probed is not used", disc[0][1])
        closed = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "close" and e.recv == made[0].val]
        r.ob("socket-closed", f.qual, bool(closed) and min(closed) > disc[0][0], "the socket a limit is found with is %s" % ("left open" if not closed else "closed before it is used"), disc[0][1])

    f = r.func("vtelem.mtu", "create_udp_socket")
    host, client = V("sym", f.params[0]), V("sym", f.params[1])
    fell = 0
    for p in r.paths(f, r.walker(opaque=METRICS)):
        if p.kind == "exc":
            continue
        new = [e for e in p.events if e.kind == "call" and e.name in ("socket.socket", "socket") and e.val == p.val]
        r.ob("udp-socket", f.qual, len(new) == 1 and [number(r.walker(), x) for x in new[0].args[:2]] == [socket.AF_INET, socket.SOCK_DGRAM], "what is given is no UDP socket", new[0] if new else f)
        con = [e for e in p.events if e.kind == "call" and e.name == "connect" and e.recv == p.val]
        bind = [e for e in p.events if e.kind == "call" and e.name == "bind" and e.recv == p.val]
        isc = next((pol for _, v, pol, _e in assumes(p) if v == client), None)
        good = [e for e in con if e.val.k != "exc"]
        if isc:
            r.ob("addressed", f.qual, not bind and len(good) == 1, "a client's socket is not connected once", (con + bind + [f])[0])
            for e in good[:1]:
                if e is con[0]:
                    r.ob("addressed", f.qual, same_host(p, e.args[0], host), "a client's socket is connected to %s" % show(e.args[0]), e)
                else:
                    fell += 1
                    a = e.args[0]
                    ok = tup(a, 1) in (V("attr", host, "port"), V("item", host, const(1)))
                    r.ob("addressed", f.qual, None if tup(a, 1) is None else ok, "a host which cannot be resolved is replaced by %s, another port" % show(a), e)
        elif isc is False:
            r.ob("addressed", f.qual, not con and len(bind) == 1 and same_host(p, bind[0].args[0], host), "a listening socket is not bound to the address given", (bind + con + [f])[0])
    f = r.func("vtelem.mtu", "get_free_port")
    kind, addr, port = (V("sym", x) for x in f.params[:3])
    for p in r.paths(f, r.walker(opaque=METRICS, try_raise=False)):
        if p.kind == "exc":
            continue
        new = [e for e in p.events if e.kind == "call" and e.name in ("socket.socket", "socket")]
        ok = len(new) == 1 and new[0].arg(1, "type") == kind
        r.ob("free-port", f.qual, ok, "the port is not tried on a socket of the kind asked for", new[0] if new else f)
        if not ok:
            continue
        s = new[0].val
        bind = [e for e in p.events if e.kind == "call" and e.name == "bind" and e.recv == s]
        r.ob("free-port", f.qual, len(bind) == 1 and bind[0].args[0] == V("tup", addr, port) or same_host(p, bind[0].args[0] if bind else None, None, (addr, port)), "the port is not tried at the address given", bind[0] if bind else new[0])
        nm = [e for e in p.events if e.kind == "call" and e.name == "getsockname" and e.recv == s]
        r.ob("free-port", f.qual, any(p.val == V("item", e.val, const(1)) or p.val == V("item", e.val, 1) for e in nm), "the port given is %s, not the one the socket got" % show(p.val), nm[0] if nm else f)
        r.ob("socket-closed", f.qual, any(e.kind == "call" and e.name == "close" and e.recv == s for e in p.events), "the socket a port is found with stays bound to it", new[0])
    f = r.func("vtelem.mtu", "host_resolve_zero")
    kind, host = (V("sym", x) for x in f.params[:2])
    port = V("attr", host, "port")
    for p in r.paths(f, r.walker(opaque=METRICS | {"vtelem.mtu:get_free_port"}, try_raise=False)):
        if p.kind == "exc":
            continue
        zero = next((pol for _, v, pol, _e in assumes(p) if v == V("cmp", "==", port, const(0))), next((not pol for _, v, pol, _e in assumes(p) if v == port), None))
        if p.val == host:
            r.ob("port-kept", f.qual, zero is False, "an address with no port is used as it is", f)
            continue
        got = [e for e in p.events if e.kind == "call" and name(e) == "get_free_port"]
        a = p.st.store.get(("A", p.val, "address"))
        b = p.st.store.get(("A", p.val, "port"))
        new = [e for e in p.events if e.kind == "new" and e.val == p.val]
        if new:
            a, b = new[0].kw.get("address", a), new[0].kw.get("port", b)
        r.ob("port-kept", f.qual, zero is True, "an address with a port of its own is given another", f)
        r.ob("port-found", f.qual, len(got) == 1 and got[0].arg(0, "kind") == kind and got[0].arg(1, "interface_ip") == V("attr", host, "address") and b == got[0].val and a == V("attr", host, "address"),
             "an address with no port becomes %s:%s" % (show(a), show(b)), got[0] if got else f)


def same_host(p, v, host, pair=None):
    if v is None:
        return False
    if host is not None and v == host:
        return True
    want = pair or (V("attr", host, "address"), V("attr", host, "port"))
    got = (tup(v, 0), tup(v, 1)) if v.k == "tup" else (p.st.store.get(("A", v, "address")), p.st.store.get(("A", v, "port")))
    alt = (V("item", host, const(0)), V("item", host, const(1))) if host is not None else want
    return got == want or got == alt


def room(r):
    """What is left of a path's limit for a frame."""
    f = r.func("vtelem.mtu", "mtu_to_usable")
    m, o = (V("sym", x) for x in f.params[:2])
    w = r.walker(opaque=METRICS)
    pre = None
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        d = None
        for k in range(1, 17):
            if lin_eq(p.val, V("bin", "-", m, V("bin", "+", o, const(k)))):
                d = k
        pre = d
        width = prefix(r)
        r.ob("room-for-prefix", f.qual, None if width is None or d is None and any(x.k not in ("sym", "bin", "const") for x in subterms(p.val)) else d is not None and d >= width,
             "a limit of m bytes leaves %s for a frame, but its headers and the size before it take %s" % (show(p.val), "medium_overhead + %s" % width), f)
    dflt = defaults(r, f).get(f.params[1])
    r.ob("room-for-headers", f.qual, None if dflt is None else dflt >= IP_UDP, "only %s bytes are left for the headers of IP and UDP" % dflt, f)
    # the manager of clients tells how much fits
    f = r.method("UdpClientManager", "add_client")
    for p in r.call(r.walker(opaque=METRICS | {"vtelem.mtu:discover_mtu", "vtelem.mtu:create_udp_socket", "StreamWriter.add_stream", "vtelem.mtu:mtu_to_usable"}, try_raise=False), V("bound", f, V("sym", "self", ty=("c", r.cls("UdpClientManager")))), [V("sym", x) for x in f.params[1:]]):
        if p.kind == "exc":
            continue
        made = [e for e in p.events if e.kind == "call" and name(e) == "create_udp_socket"]
        disc = [e for e in p.events if e.kind == "call" and name(e) == "discover_mtu"]
        add = [e for e in p.events if e.kind == "call" and name(e) == "add_stream"]
        sid, lim = tup(p.val, 0), tup(p.val, 1)
        ok = len(made) == 1 and len(disc) == 1 and disc[0].arg(0, "sock") == made[0].val
        r.ob("client-limit", f.qual, ok, "the limit told for a client is not found on the socket it is sent with", disc[0] if disc else f)
        if not ok:
            continue
        usable = [e for e in p.events if e.kind == "call" and name(e) == "mtu_to_usable" and e.val == lim and e.args[:1] == (disc[0].val,)]
        fits = bool(usable) or any(lin_eq(lim, V("bin", "-", disc[0].val, const(k))) for k in range(IP_UDP, IP_UDP + 17))
        r.ob("client-limit", f.qual, fits, "a client is told it can be sent %s bytes at once" % show(lim), disc[0])
        r.ob("client-limit", f.qual, len(add) == 1 and sid == add[0].val, "the identifier told for a client is %s" % show(sid), add[0] if add else f)
    f = r.func("vtelem.client.udp", "create")
    n = 0
    for p in r.paths(f, r.walker(opaque=METRICS | {"UdpClientManager.add_client", "vtelem.mtu:get_free_port"}, try_raise=False, inline_pred=lambda fi, st: fi.name not in ("__init__", "add_client", "get_queue", "remove_client", "get_free_port"))):
        y = [(i, e) for i, e in enumerate(p.events) if e.kind == "yield"]
        add = [e for e in p.events if e.kind == "call" and e.name == "add_client"]
        if not y or len(add) != 1:
            continue
        n += 1
        c = tup(y[0][1].val, 0)
        i = y[0][0]
        ws = [e for e in p.events[:i] if e.kind == "write" and e.name == "mtu" and e.recv == c]
        up = [e for e in p.events[:i] if e.kind == "call" and e.name == "update_mtu" and e.recv == c]
        v = ws[-1].val if ws else up[-1].args[0] if up else None
        r.ob("client-told", f.qual, v is not None and v in (V("item", add[0].val, const(1)), V("item", add[0].val, 1), tup(add[0].val, 1)), "a client reads at most %s bytes at once, not as much as it can be sent" % ("what it was made for" if v is None else show(v)), add[0])
    r.ob("client-told", f.qual, n > 0, "no client is ever given out", f)


def prefix(r):
    """The number of bytes put before a frame where it is sent over a stream."""
    f = r.method("Frame", "with_size_header")
    out = set()
    for p in r.paths(f, r.walker(opaque=METRICS, try_raise=False)):
        if p.kind == "exc":
            continue
        fmt = [cval(e.args[0]) for e in p.events if e.kind == "call" and e.name == "struct.pack" and is_const(e.args[0])]
        import struct
        for x in fmt:
            out.add(struct.calcsize(x))
    return out.pop() if len(out) == 1 else None


def defaults(r, f):
    """The constant defaults of a function's parameters."""
    import ast
    a = f.node.args
    out = {}
    for arg, d in zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults):
        try:
            v = eval(compile(ast.Expression(d), "default", "eval"), {"__builtins__": {}}) if all(isinstance(x, (ast.Expression, ast.BinOp, ast.Constant, ast.operator)) for x in ast.walk(ast.Expression(d))) else None
        except Exception:
            v = None
        if isinstance(v, int):
            out[arg] = v
    return out


def server(r):
    """The server's frames fit its own path and never the usual limit's excess."""
    f = r.method("TelemetryServer", "__init__")
    w = r.walker(inline_pred=lambda fi, st: ctors(fi, st) and fi.name != "handle_new_mtu" or fi.name == "mtu_to_usable" or fi.cls is not None and fi.cls.name == "TypePrimitive", opaque=QUIETS | {"ChannelEnvironment.handle_new_mtu"}, try_raise=False)
    base = None
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        tel = [e for e in p.events if e.kind == "new" and r.made(e, "TelemetryDaemon")]
        if len(tel) != 1:
            r.ob("server-limit", f.qual, None, "where the server's telemetry is made is not understood", f)
            continue
        m = tel[0].kw.get("mtu")
        disc = [e for e in p.events if e.kind == "call" and name(e) in ("discover_ipv4_mtu", "discover_mtu")]
        ok = any(lin_eq(m, V("bin", "-", e.val, const(k))) for e in disc for k in range(IP_UDP + 4, IP_UDP + 17))
        r.ob("server-limit", f.qual, ok, "the server's frames are made for a limit of %s, not for what is usable of the one found" % show(m), tel[0])
        more = [e for e in p.events if e.kind == "call" and e.name == "handle_new_mtu" and e.recv == tel[0].val]
        r.ob("usual-limit", f.qual, len(more) >= 1, "the server's frames may be larger than is usual", tel[0])
        for e in more:
            a = e.args[0] if e.args else e.kw.get("new_mtu")
            v = cval(a) if a is not None and is_const(a) else None
            r.ob("usual-limit", f.qual, None if v is None else v <= 1500 - IP_UDP - 4, "the server's frames are only limited to %s" % show(a), e)


def check(r):
    r.rule("ChannelEnvironment.handle_new_mtu is walked: the frame builder's limit is read and written under the lock frames are built under, and becomes the new limit exactly on the paths where that was found smaller; no other function writes the limit of a frame or frame builder "
           "after constructing it. mtu_to_usable takes at least the IP and UDP headers and the width of the size written before a frame off the limit; the server builds its frames for what is usable of the limit it finds, at most the usual one. A limit is read from the socket "
           "asked about, after a probe of the size given was sent with fragmentation forbidden, and the socket's own setting is put back, after a probe which could not be sent as well. A client is told the limit of its own socket less the headers. Sockets opened only "
           "to find a limit or a port are closed, and an address keeps its port unless it has none.")
    r.made = lambda e, c: g03_made(r, e, c)
    limits(r)
    discovery(r)
    room(r)
    server(r)
    r.require("only-shrinks", "restored", "limit-of-path", "client-limit", "server-limit")
