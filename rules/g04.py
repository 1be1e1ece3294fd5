"""G04: a service is announced once, where it listens, and its socket is closed once, when nothing serves it."""
from rules._daemon import *

SELF = V("sym", "self")
SERVER = V("attr", SELF, "server")
TLS = V("attr", SELF, "ssl_context")
SERVES = ("serve_forever",)


def truth(p, v, upto=None):
    """What the path assumed of v being set (true, or not None)."""
    for _, x, pol, _e in assumes(p, upto):
        if x == v:
            return pol
        if x.k == "cmp" and x.a[0] == "is" and x.a[1] == v and is_none(x.a[2]):
            return not pol
    return None


def own(locks):
    return any((l[0] if isinstance(l, tuple) else l) == V("attr", SELF, "lock") for l in locks or ())


def same(v, *want):
    return v is not None and v in want


def http(r):
    ci = r.cls("HttpDaemon")
    me = SELF.typed(("c", ci))
    f = r.method("HttpDaemon", "run")
    reg, first, closed = V("sym", "service_registry", ty=("c", r.cls("ServiceRegistry"))), V("sym", "first_start"), V("attr", SELF, "closed")
    given = []
    for kw in ({"first_start": first, "service_registry": reg}, {"first_start": first}, {"service_registry": reg}, {}):
        w = r.walker(opaque=METRICS | {"Registry.add", "ServiceRegistry.add"}, try_raise=False)
        for p in r.call(w, V("bound", f, me), [], kw={**kw, "**": NONE}):
            if p.kind == "exc":
                r.ob("serves-anyway", f.qual, bool(kw) and p.exc_name not in ("KeyError", "TypeError"), "the server cannot run without being told of a registry (%s)" % p.exc_name, f)
                continue
            serves = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in SERVES]
            adds = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "add" and e.recv is not None]
            shut = truth(p, closed)
            if shut is True:
                r.ob("closed-not-served", f.qual, not serves, "a server which is closed is served", serves[0][1] if serves else f)
                r.ob("announced", f.qual, not adds, "a server which is closed is announced", adds[0][1] if adds else f)
                continue
            r.ob("closed-not-served", f.qual, shut is False, "a server is served without asking whether it is closed", serves[0][1] if serves else f)
            r.ob("served", f.qual, len(serves) == 1 and serves[0][1].recv == SERVER, "a server which is open is served %d times" % len(serves), serves[-1][1] if serves else f)
            if not serves:
                continue
            i, s = serves[0]
            # behind TLS exactly where it was configured
            wraps = [(j, e) for j, e in enumerate(p.events[:i]) if e.kind == "call" and e.name == "wrap_socket"]
            tls = truth(p, TLS, i)
            sock = [(j, e) for j, e in enumerate(p.events[:i]) if e.kind == "write" and e.name == "socket" and e.recv == SERVER]
            if tls:
                ok = len(wraps) == 1 and wraps[0][1].recv == TLS and bool(sock) and mentions(sock[-1][1].val, wraps[0][1].val)
                ss = wraps[0][1].kw.get("server_side") if wraps else None
                r.ob("tls-served", f.qual, ok and ss is not None and is_const(ss) and cval(ss) is True, "a server with TLS set up accepts connections without it", s)
                r.ob("tls-served", f.qual, not wraps or wraps[0][1].args[:1] == (V("attr", SERVER, "socket"),), "another socket than the server's is put behind TLS", s)
            else:
                r.ob("tls-served", f.qual, tls is False and not wraps, "whether TLS was set up is not asked before serving", s)
            # announced
            want = truth(p, first, i) if "first_start" in kw and "service_registry" in kw else False
            if want and truth(p, reg, i) is False:
                want = False
            for j, a in adds:
                r.ob("announced", f.qual, want is True and a.recv == reg and j < i, "a server is announced %s" % ("without being started for the first time" if want is not True else "elsewhere or after it is served"), a)
                given.append(a)
                where(r, f, p, a, SELF, {V("attr", SERVER, "server_address")})
            r.ob("announced", f.qual, len(adds) == (1 if want else 0) or want is None, "a server started for the first time is announced %d times" % len(adds), s)
    r.ob("announced", f.qual, bool(given), "an HTTP server is never announced", f)

    # closing
    f = r.method("HttpDaemon", "close")
    L = Life(r)
    for p in r.call(r.walker(opaque=METRICS, try_raise=False, volatile=("state", "closed"), track_reads=True), V("bound", f, me), []):
        if p.kind == "exc":
            continue
        cl = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "server_close"]
        ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "closed" and e.recv == SELF]
        tests = [(i, v, pol, e) for i, v, pol, e in assumes(p)]
        said = p.val is not None and is_const(p.val) and cval(p.val) is True
        r.ob("close-answer", f.qual, None if p.val is None or not is_const(p.val) else said == bool(cl), "closing answers %s although the socket is %s" % (show(p.val), "closed" if cl else "left open"), cl[0][1] if cl else f)
        if not cl:
            continue
        idle = [e for i, v, pol, e in tests if i < cl[0][0] and v.k == "cmp" and v.a[0] in ("==", "is") and pol and "IDLE" in show(v) and "state" in show(v)]
        idle += [e for i, v, pol, e in tests if i < cl[0][0] and not pol and v.k in ("cmp",) and v.a[0] in ("!=",) and "IDLE" in show(v)]
        r.ob("closed-idle", f.qual, bool(idle) and all(own(e.locks) for e in idle), "a server's socket is closed while it may be served", cl[0][1])
        once = [e for i, v, pol, e in tests if i < cl[0][0] and "closed" in show(v) and not pol]
        r.ob("closed-once", f.qual, len(cl) == 1 and cl[0][1].recv == SERVER and bool(once) and bool(ws) and all(is_const(e.val) and cval(e.val) is True and own(e.locks) for _, e in ws) and all(own(e.locks) for e in once),
             "a server's socket may be closed more than once", cl[0][1])
        if idle and once and ws:
            span = [e for e in p.events[p.events.index(idle[0]):ws[-1][0]] if e.kind == "release" and e.recv is not None]
            r.ob("closed-idle", f.qual, all(own(e.locks) for e in p.events[p.events.index(idle[0]):ws[-1][0]]), "the server may be started between finding it idle and closing it", ws[-1][1])
    g = r.graph()
    for h, evs in g.evs.items():
        for e in evs:
            if e.kind == "write" and e.name == "closed" and e.recv is not None and (e.recv == SELF and h.cls is not None and r.p.is_sub(h.cls, ci) or e.recv.ty == ("c", ci)):
                ok = h is f or h.name == "__init__" or r.private(h) and all(c is f for c in g.callers.get(h, ()))
                r.ob("stays-closed", h.qual, ok, "whether a server is closed is changed", e)

    f = r.method("HttpDaemon", "serve")
    for p in r.call(r.walker(opaque=METRICS | {"DaemonBase.serve", "HttpDaemon.close"}, try_raise=False), V("bound", f, me), []):
        if p.kind == "exc":
            continue
        sv = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "serve"]
        cl = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "close"]
        r.ob("closed-at-end", f.qual, len(sv) == 1 and len(cl) == 1 and cl[0][0] > sv[0], "a server's socket is not closed when it is done serving", cl[0][1] if cl else f)
        r.ob("closed-at-end", f.qual, bool(sv) and p.val == p.events[sv[0]].val, "the result of serving is lost", f)

    # TLS
    f = r.method("HttpDaemon", "use_tls")
    key, cert = (V("sym", x) for x in f.params[1:3])
    n = 0
    for p in r.call(r.walker(opaque=METRICS, volatile=("state",), try_raise=False, raises=lambda e: ["OSError"] if e.kind == "call" and e.name == "load_cert_chain" else []), V("bound", f, me), [key, cert]):
        ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "ssl_context" and e.recv == SELF]
        loads = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "load_cert_chain"]
        for i, e in ws:
            n += 1
            idle = [x for j, v, pol, x in assumes(p, i) if "IDLE" in show(v) and "state" in show(v) and (pol if v.a[0] in ("==", "is") else not pol)]
            r.ob("tls-idle", f.qual, bool(idle) and own(e.locks), "TLS is set up for a server which may be served", e)
        for i, e in loads:
            a, k = e.arg(0, "certfile"), e.arg(1, "keyfile")
            r.ob("tls-certificate", f.qual, a == cert and k == key, "the certificate is read from %s and its key from %s" % (show(a), show(k)), e)
        if p.kind == "exc" and loads:
            r.ob("tls-all-or-nothing", f.qual, not ws, "a server whose certificate cannot be read is left with TLS and no certificate", ws[0][1] if ws else f)
        elif p.kind != "exc":
            ok = bool(ws) and bool(loads) and ws[-1][1].val == loads[-1][1].recv or bool(ws) and bool(loads) and loads[-1][1].recv == TLS
            r.ob("tls-certificate", f.qual, ok, "the context served behind is not the one the certificate is loaded into", ws[-1][1] if ws else f)
    r.ob("tls-idle", f.qual, n > 0, "TLS is never set up", f)

    f = r.method("HttpDaemon", "get_base_url")
    for p in r.call(r.walker(opaque=METRICS, try_raise=False), V("bound", f, me), []):
        if p.kind == "exc":
            continue
        txt = show(p.val)
        tls = truth(p, TLS)
        r.ob("url-protocol", f.qual, None if "http" not in txt else tls is not None and ("https://" in txt) == tls, "a server %s TLS says that it is at %s" % ("with" if tls else "without", txt), f)
        adr = V("attr", SERVER, "server_address")
        have = {x for x in subterms(p.val)}
        parts = {x for x in have if x.k == "item" and x.a[0] == adr}
        ok = {V("item", adr, const(0)), V("item", adr, const(1))} <= have
        r.ob("url-address", f.qual, ok or (None if adr in have and not parts else False), "a server says that it is at %s" % txt, f)


def where(r, f, p, a, me, addresses):
    """The announcement names the service and the addresses it listens on."""
    nm, ad = a.arg(0, "name"), a.arg(1, "data")
    names = {V("attr", me, "name"), p.st.store.get(("A", me, "name"))} - {None}
    r.ob("own-name", f.qual, nm in names, "a service is announced as %s" % show(nm), a)
    items = p.st.store.get(("C", ad)) if ad is not None else None
    if items is None:
        items = p.st.store.get(("COMP", ad)) if ad is not None else None
    ok = None if items is None and ad is not None and ad.k != "const" else bool(items) and all(x in addresses or tup(x, 0) is not None and all(any(mentions(tup(x, k), b) for b in addresses) for k in (0, 1)) for x in items)
    r.ob("own-address", f.qual, ok, "a service is announced at %s" % ", ".join(show(x) for x in items or [ad]), a)


def websockets(r):
    ci = r.cls("WebsocketDaemon")
    f = r.method("WebsocketDaemon", "__init__")
    kw = {x: V("sym", x) for x in f.params[1:]}
    kw.update(env=NONE, time_keeper=NONE)
    if "ws_handler" in kw:
        kw["ws_handler"] = NONE
    reg, first = V("sym", "service_registry", ty=("c", r.cls("ServiceRegistry"))), V("sym", "first_start")
    opq = METRICS | QUIET | {"vtelem.mtu:host_resolve_zero", "ServiceRegistry.add", "Registry.add", "DaemonBase.reset_metric"}
    n = 0
    done = set()
    for me, st in r.construct(r.walker(opaque=opq, try_raise=False, max_paths=3000), ci, [], kw):
        fn = st.store.get(("I", st.store.get(("A", me, "function")), const("run_init")))
        adr = st.store.get(("A", me, "address"))
        if fn is None or fn.k not in ("func", "bound"):
            r.ob("serves", ci.name, None, "what starts a websocket server is not found", f)
            continue
        sig = (show(fn), show(adr).split("#")[0])
        if sig in done:
            continue
        done.add(sig)
        for serving in (False, True):
            s0 = st.fork()
            s0.store[("A", me, "serving")] = const(serving)
            for kws in ({"first_start": first, "service_registry": reg},):
                for p in r.call(r.walker(opaque=opq, try_raise=False), fn, [], st=s0, kw=kws):
                    at = fn.a[0]
                    if p.kind == "exc":
                        r.ob("serves-anyway", ci.name, bool(kws), "a websocket server cannot start without being told of a registry", at)
                        continue
                    n += 1
                    sv = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name.split(".")[-1] == "serve"]
                    adds = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "add" and e.recv is not None]
                    r.ob("serves", ci.name, len(sv) == (0 if serving else 1), "a websocket server which %s is served %d more times" % ("listens already" if serving else "does not listen yet", len(sv)), sv[-1][1] if sv else at)
                    if not sv:
                        r.ob("announced", ci.name, not adds, "a websocket server is announced again", adds[0][1] if adds else at)
                        continue
                    i, s = sv[0]
                    host = (V("attr", adr, "address"), V("item", adr, const(0))), (V("attr", adr, "port"), V("item", adr, const(1)))
                    got = s.arg(1, "host"), s.arg(2, "port")
                    r.ob("serves", ci.name, same(got[0], *host[0], st.store.get(("A", adr, "address"))) and same(got[1], *host[1], st.store.get(("A", adr, "port"))), "a websocket server listens on %s:%s, not at its address" % (show(got[0]), show(got[1])), s)
                    after = p.st.store.get(("A", me, "serving"))
                    r.ob("serves", ci.name, after is not None and is_const(after) and cval(after) is True, "a websocket server which listens is not known to", s)
                    want = truth(p, first) and truth(p, reg) if kws else False
                    socks = V("attr", s.val, "sockets")
                    none = truth(p, socks) is False
                    for j, a in adds:
                        r.ob("announced", ci.name, bool(want) and a.recv == reg and j > i, "a websocket server is announced %s" % ("without being started for the first time" if not want else "before it listens"), a)
                        names = [e.val for e in p.events[i:j] if e.kind == "call" and e.name == "getsockname" and e.recv is not None and mentions(e.recv, socks)]
                        where(r, fn.a[0], p, a, me, set(names))
                    r.ob("announced", ci.name, len(adds) == (1 if want and not none else 0) or any(e.kind == "iter" for e in p.events) or p.facts.get(socks) is False, "a websocket server started for the first time is announced %d times" % len(adds), s)
    r.ob("serves", ci.name, n > 0, "a websocket server is never started", f)


def server(r):
    """What the server tells the services it starts."""
    f = r.method("TelemetryServer", "start_all")
    me = V("sym", "self", ty=("c", r.cls("TelemetryServer")))
    was = V("attr", SELF, "first_start")
    w = r.walker(opaque=METRICS | {"DaemonManager.get", "DaemonManager.perform_all", "DaemonBase.perform", "Daemon.perform"}, try_raise=False)
    for p in r.call(w, V("bound", f, me), []):
        if p.kind == "exc":
            continue
        starts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("perform_all", "perform")]
        tel = [e.val for e in p.events if e.kind == "call" and e.name == "get"]
        for i, e in starts:
            kw = dict(e.kw)
            for d in [v for k, v in e.kw.items() if k.startswith("**")]:
                for k, v in p.st.store.items():
                    if k[0] == "I" and k[1] == d and is_const(k[2]):
                        kw[cval(k[2])] = v
            r.ob("told-first", f.qual, kw.get("first_start") == was, "services are started with first_start=%s" % show(kw.get("first_start")), e)
            sr = kw.get("service_registry")
            r.ob("told-registry", f.qual, sr is not None and any(sr == V("item", V("attr", t, "registries"), const("services")) for t in tel), "services are announced in %s" % show(sr), e)
        ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "first_start" and e.recv == SELF]
        r.ob("told-first", f.qual, bool(ws) and is_const(ws[-1][1].val) and cval(ws[-1][1].val) is False and (not starts or ws[0][0] > starts[-1][0]), "a server started again says that it starts for the first time, or too early that it did", ws[-1][1] if ws else f)
    init = r.method("TelemetryServer", "__init__")
    g = r.graph()
    for h, evs in g.evs.items():
        for e in evs:
            if e.kind == "write" and e.name == "first_start":
                ok = h is f or h is init and is_const(e.val) and cval(e.val) is True or r.private(h) and all(c in (f, init) for c in g.callers.get(h, ()))
                r.ob("told-first", h.qual, ok, "first_start becomes %s" % show(e.val), e)


def check(r):
    r.rule("HttpDaemon.run, close, serve, use_tls and get_base_url and the function starting a websocket server are walked. A server found closed is neither served nor announced; one found open is served once, behind the configured TLS context exactly where there is one. "
           "On a first start with a registry it is announced once, before (HTTP) or after (websocket) it listens, under its own name and with the addresses its sockets are bound to; otherwise never. The socket is closed exactly on the paths which answer that it was, "
           "after the daemon was found idle and not closed and was marked closed under one holding of its lock; nothing else changes that mark. TLS is only set up while idle, with the certificate and key given, and not at all if they cannot be read. The URL "
           "given names the bound address and https exactly with TLS. A websocket server is served once, at its own address. TelemetryServer.start_all tells every service whether this is the first start, and where to announce itself, and only afterwards that it was.")
    r.assume("server_address and getsockname() give the address a socket is bound to.")
    http(r)
    websockets(r)
    server(r)
    r.require("announced", "closed-once", "tls-idle", "serves", "told-first")
