"""G01: a server runs exactly the services that are enabled."""
from rules._daemon import *

SELF = V("sym", "self")
SERVICES = {"websocket_tlm": ("WebsocketTelemetryDaemon", "websocket_telemetry"), "tcp_tlm": ("TcpTelemetryDaemon", "tcp_telemetry"), "websocket_cmd": ("WebsocketDaemon", "websocket_command")}
CORE = {"TimeKeeper": "clock", "TelemetryDaemon": "telemetry", "StreamWriter": "stream writer", "CommandQueueDaemon": "command queue"}


def flags(p, services):
    """service -> enabled, as far as the path assumed it."""
    out = {}
    for _, v, pol, _e in assumes(p):
        if v.k == "attr" and v.a[1] == "enabled" and v.a[0].k == "attr" and v.a[0].a[0] == services:
            out[v.a[0].a[1]] = pol
    return out


def http_known(p):
    """What the path assumed of http_enabled."""
    for _, v, pol, _e in assumes(p):
        if v == V("attr", SELF, "http_enabled"):
            return pol
    return None


def performs(p, r, op):
    """(all daemons, the server itself): the calls asking for an operation."""
    def asked(e):
        return e.args and (e.args[0].k == "enum" and e.args[0].a[1] == op)
    a = [e for e in p.events if e.kind == "call" and e.name == "perform_all" and asked(e)]
    s = [e for e in p.events if e.kind == "call" and e.name == "perform" and e.recv == SELF and asked(e)] + \
        [e for e in p.events if e.kind == "call" and e.name == op.lower() and e.recv == SELF and e.fi is not None]
    return a, s


QUIETS = QUIET | {"DaemonBase.perform", "DaemonBase.start", "DaemonBase.stop", "DaemonManager.perform_all", "DaemonManager.get", "DaemonManager.add_daemon", "HttpDaemon.close", "UdpClientManager.remove_all",
                  "UdpClientManager.add_clients", "ChannelEnvironment.handle_new_mtu", "TelemetryServer.start_all", "TelemetryServer.stop_all"}


def check(r):
    r.rule("Every path of TelemetryServer.__init__, for each optional service enabled or not: a daemon of the service's class, made with the service's name and address, is handed to the daemon manager once exactly where the service's own flag was found set; the clock, "
           "the telemetry, the stream writer and the command queue are each handed to it once on every path; every dependency named is a daemon handed over on that path; no path uses a name it has not bound and none ends in an error; for each flag there are "
           "paths with it set and not set; the server's own HTTP flag is the one given. start_all and stop_all ask all daemons once, and the server itself once exactly where its HTTP flag was found set.")
    r.assume("Service names are distinct; constructing a daemon of an enabled service succeeds.")
    f = r.method("TelemetryServer", "__init__")
    services = V("sym", "services")
    for c, _ in SERVICES.values():
        r.cls(c)
    for c in CORE:
        r.cls(c)
    free = {"create_daemon_manager_commander", "create_channel_commander", "create_udp_client_commander", "register_http_handlers", "discover_ipv4_mtu", "discover_mtu", "mtu_to_usable"}
    pred = lambda fi, st: not (fi.name == "__init__" and fi.cls is not None) and fi.qual not in QUIETS and not (fi.cls is None and fi.name in free)
    seen = {k: set() for k in SERVICES}
    n = 0
    for p in r.paths(f, r.walker(inline_pred=pred, opaque=QUIETS, assert_fork=True, try_raise=False)):
        fl = flags(p, services)
        default = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == services and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
        ub = [e for e in p.events if e.kind == "unbound"]
        r.ob("constructs", f.qual, not ub, "with %s, construction uses %s which was never set" % (", ".join("%s %sabled" % (k, "en" if x else "dis") for k, x in sorted(fl.items())) or "default services", ub[0].name if ub else ""), ub[0] if ub else f)
        if p.kind == "exc":
            last = [v for _, v, pol, _e in assumes(p)][-1:]
            if last and not ub and any(e.kind == "call" and e.name == "add_daemon" and mentions(last[0], e.val) for e in p.events):
                continue
            r.ob("constructs", f.qual, False, "construction fails (%s)" % p.exc_name, p.events[-1] if p.events else f)
            continue
        n += 1
        new = {e.val: e for e in p.events if e.kind == "new"}
        added = [e for e in p.events if e.kind == "call" and e.name == "add_daemon"]
        objs = [(e, new.get(e.arg(0, "daemon"))) for e in added]
        for e, m in objs:
            if m is None:
                r.ob("registered-known", f.qual, None, "%s is registered" % show(e.arg(0)), e)
        for k, (cn, dn) in SERVICES.items():
            mine = [(e, m) for e, m in objs if m is not None and m.name == cn]
            on = True if default else fl.get(k)
            if k in fl:
                seen[k].add(fl[k])
            if on is None:
                r.ob("enabled-runs", f.qual, False, "%s is %sregistered whether or not it is enabled" % (k, "" if mine else "not "), mine[0][0] if mine else f)
                continue
            vague = any(m is None for _, m in objs)
            ok = len(mine) == (1 if on else 0)
            r.ob("enabled-runs", f.qual, ok if ok or not vague else None, "%s is %s but is registered %d times" % (k, "enabled" if on else "disabled", len(mine)), mine[-1][0] if mine else f)
            for e, m in mine:
                nm, addr = m.kw.get("name"), m.kw.get("address", m.kw.get("host"))
                s = V("attr", services, k)
                r.ob("as-configured", f.qual, nm == (V("attr", s, "name") if not default else const(dn)), "%s is named %s" % (k, show(nm)), m)
                r.ob("as-configured", f.qual, addr == (V("attr", s, "host") if not default else NONE), "%s is bound to %s" % (k, show(addr)), m)
        for cn, what in CORE.items():
            mine = [e for e, m in objs if m is not None and m.name == cn]
            r.ob("core-runs", f.qual, len(mine) == 1, "the %s is registered %d times" % (what, len(mine)), mine[-1] if mine else f)
        names = {m.kw.get("name") for _, m in objs if m is not None}
        for e, _ in objs:
            d = e.arg(1, "depends_on")
            items = p.st.store.get(("C", d)) if d is not None and d.k == "obj" else ()
            for x in items or ():
                r.ob("dependencies-run", f.qual, x in names, "depends on %s, which is not registered" % show(x), e)
        base = [e for e in p.events if e.kind == "call" and e.name == "__init__" and e.recv == SELF and e.fi is not None and e.fi.cls is r.cls("HttpDaemon")]
        s = V("attr", services, "http")
        r.ob("http-made", f.qual, len(base) == 1 and (default or base[0].arg(0, "name") == V("attr", s, "name") and base[0].arg(1, "address") == V("attr", s, "host")), "the HTTP service is not made as configured", base[-1] if base else f)
        he = p.st.store.get(("A", SELF, "http_enabled"))
        r.ob("http-flag", f.qual, he == (TRUE if default else V("attr", s, "enabled")), "the HTTP service is enabled: %s" % show(he), f)
    for k, x in seen.items():
        r.ob("configurable", f.qual, x == {True, False}, "construction does not allow %s to be both enabled and disabled" % k, f)
    r.ob("constructs", f.qual, n > 0, "construction never succeeds", f)
    # starting and stopping
    for nm, op in (("start_all", "START"), ("stop_all", "STOP")):
        f = r.method("TelemetryServer", nm)
        for p in r.paths(f, r.walker(opaque=QUIETS, assert_fork=False)):
            if p.kind == "exc":
                continue
            a, s = performs(p, r, op)
            on = http_known(p)
            r.ob("all-asked", f.qual, len(a) == 1, "the daemons are asked to %s %d times" % (op.lower(), len(a)), a[-1] if a else f)
            r.ob("http-follows-flag", f.qual, on is not None and len(s) == (1 if on else 0), "the HTTP service is %s and asked to %s %d times" % ({True: "enabled", False: "disabled", None: "enabled or not"}[on], op.lower(), len(s)), s[-1] if s else f)
        other = {"start_all": "STOP", "stop_all": "START"}[nm]
        for p in r.paths(f, r.walker(opaque=QUIETS, assert_fork=False)):
            a, s = performs(p, r, other)
            r.ob("http-follows-flag", f.qual, not a and not s, "asks for the opposite", (a + s)[0] if a or s else f)
    r.require("enabled-runs", "core-runs", "as-configured", "http-flag", "http-follows-flag", "dependencies-run")
