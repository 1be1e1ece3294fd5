"""C01: a server started from the command line is the one its options describe."""
from rules._daemon import *

SERVER = {"TelemetryServer.__init__", "TelemetryServer.start_all", "TelemetryServer.scale_speed", "TelemetryServer.await_shutdown", "TelemetryServer.stop_all", "TelemetryServer.booted"}
PORTS = {"http": "port", "websocket_cmd": "ws_cmd_port", "websocket_tlm": "ws_tlm_port", "tcp_tlm": "tcp_tlm_port"}
RATES = {"tick_length": "tick", "telem_rate": "telem_rate", "metrics_rate": "metrics_rate", "app_id_basis": "app_id"}


def options(r, f):
    """dest -> call adding the option, and the flags each is known by."""
    out = {}
    for p in r.paths(f, r.walker(opaque=QUIET | {"vtelem.app:entry", "vtelem.app:add_app_args"}, try_raise=False)):
        for e in p.events:
            if e.kind == "call" and e.name == "add_argument":
                flags = [cval(a) for a in e.args if is_const(a)]
                dest = e.kw.get("dest")
                if dest is not None and is_const(dest):
                    d = cval(dest)
                else:
                    longs = [x for x in flags if x.startswith("--")] or [x for x in flags if not x.startswith("-")] or flags
                    if not longs:
                        r.ob("option", f.qual, None, "an option is not understood", e)
                        continue
                    d = longs[0].lstrip("-").replace("-", "_")
                out[d] = (e, flags)
    return out


def type_of(e):
    t = e.kw.get("type")
    return show(t).split(".")[-1].strip("'") if t is not None else None


def field(p, v, name):
    return p.st.store.get(("A", v, name))


def check(r):
    r.rule("The options added to the command line parser are collected; app.entry is walked with any arguments: every argument it reads is an option, with the type its use needs; the server it makes has for each service the default name, the interface's address (any address when none is named) "
           "and that service's own port option, and gets tick, telemetry rate, metrics rate and id from theirs; it is started, then scaled by the scale option, then waited for with the uptime option, each once. "
           "main parses exactly the arguments after the program's name, hands the result to entry once, returns its result or the code of the exit requested, and a return has changed back to the directory it started in.")
    f = r.func("vtelem.app", "entry")
    main = r.func("vtelem.entry", "main")
    app = r.func("vtelem.app", "add_app_args")
    opts = options(r, app)
    own = options(r, main)
    flags = {}
    for d, (e, fl) in list(opts.items()) + list(own.items()):
        for x in fl:
            r.ob("option", x, x not in flags or flags[x] == d, "the flag '%s' is given to two options" % x, e)
            flags[x] = d
    args = V("sym", f.params[0])
    read = set()
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET | SERVER)):
        for e in p.events:
            for v in list(e.args or ()) + list((e.kw or {}).values()) + [x for x in (e.recv, e.val) if x is not None]:
                if isinstance(v, V):
                    read |= {x.a[1] for x in subterms(v) if x.k == "attr" and x.a[0] == args}
        if p.kind == "exc":
            continue
        made = [(i, e) for i, e in enumerate(p.events) if e.kind == "new" and e.name == "TelemetryServer"]
        r.ob("one-server", f.qual, len(made) == 1, "%d servers are made" % len(made), f)
        if len(made) != 1:
            continue
        n += 1
        i, e = made[0]
        for k, o in RATES.items():
            v = e.kw.get(k)
            r.ob("configured", f.qual, v == V("attr", args, o), "the server's '%s' is %s" % (k, show(v)), e)
        sv = e.kw.get("services")
        names = {x.kw["name"] for x in p.events if x.kind == "new" and x.name == "Service" and "name" in x.kw}
        none = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "is", V("attr", args, "interface"), NONE)), None)
        for s, o in PORTS.items():
            one = field(p, sv, s) if sv is not None else None
            host = field(p, one, "host") if one is not None else None
            if host is None:
                r.ob("configured", f.qual, None, "the '%s' service is %s" % (s, show(one)), e)
                continue
            po, ad = field(p, host, "port") or tup(host, 1), field(p, host, "address") or tup(host, 0)
            r.ob("configured", f.qual, po == V("attr", args, o), "the '%s' service's port is %s" % (s, show(po)), e)
            if none is True:
                r.ob("configured", f.qual, is_const(ad, "0.0.0.0"), "the '%s' service's address is %s though no interface is named" % (s, show(ad)), e)
            elif none is False:
                r.ob("configured", f.qual, mentions(ad, V("attr", args, "interface")) or any(x.kind == "call" and mentions(ad, x.val) and V("attr", args, "interface") in x.args for x in p.events), "the '%s' service's address is %s" % (s, show(ad)), e)
            nm, en = field(p, one, "name"), field(p, one, "enabled")
            r.ob("configured", f.qual, nm is not None and is_const(nm), "the '%s' service's name is %s" % (s, show(nm)), e)
            r.ob("configured", f.qual, en is None or is_const(en, True) or not is_const(en) and None, "the '%s' service is not enabled" % s, e)
        on = [(j, x) for j, x in enumerate(p.events) if x.kind == "call" and x.recv == e.val]
        seq = [x.name for _, x in on]
        if "booted" in seq:
            continue
        r.ob("started", f.qual, seq.count("start_all") == 1, "the server is started %d times" % seq.count("start_all"), e)
        r.ob("started", f.qual, seq.count("await_shutdown") == 1 and seq[-1] in ("await_shutdown", "stop_all"), "the server is waited for %d times" % seq.count("await_shutdown"), e)
        for j, x in on:
            if x.name == "scale_speed":
                r.ob("scaled", f.qual, x.args and x.args[0] == V("attr", args, "time_scale"), "time is scaled by %s" % show(x.args[0] if x.args else None), x)
            if x.name == "await_shutdown":
                t = x.args[0] if x.args else x.kw.get("timeout")
                r.ob("started", f.qual, t == V("attr", args, "uptime"), "the server runs for %s" % show(t), x)
                r.ob("started", f.qual, any(y.name == "start_all" and k < j for k, y in on), "the server is waited for before it is started", x)
        r.ob("scaled", f.qual, seq.count("scale_speed") == 1, "time is scaled %d times" % seq.count("scale_speed"), e)
    r.ob("one-server", f.qual, n > 0, "no server is made", f)
    for a in sorted(read):
        r.ob("option", a, a in opts or a in own, "there is no option '%s'" % a, f)
        e = (opts.get(a) or own.get(a) or (None,))[0]
        if e is None or e.kw.get("action") is not None:
            continue
        t = type_of(e)
        if a in PORTS.values():
            r.ob("option-type", a, t == "int", "the option '%s' is read as %s" % (a, t or "text"), e)
        elif a in RATES.values() or a in ("time_scale", "uptime"):
            r.ob("option-type", a, t == "float", "the option '%s' is read as %s" % (a, t or "text"), e)
        if a == "time_scale":
            d = e.kw.get("default")
            r.ob("option-type", a, d is not None and is_const(d) and cval(d) == 1, "time is scaled by %s by default" % show(d), e)
        if a in ("tick", "telem_rate"):
            d = e.kw.get("default")
            r.ob("option-type", a, (cval(d) > 0 if is_const(d) else None) if d is not None else False, "'%s' is %s by default" % (a, show(d)), e)
    # main
    argv = V("sym", main.params[0])
    m = 0
    for p in r.paths(main, r.walker(opaque=QUIET | {"vtelem.app:entry", "vtelem.app:add_app_args"})):
        calls = [e for e in p.events if e.kind == "call"]
        dirs = [e for e in calls if e.name in ("os.chdir", "chdir") and not (e.val is not None and e.val.k == "exc")]
        if p.kind == "exc":
            continue
        starts = {e.val for e in calls if e.name.split(".")[-1] in ("cwd", "getcwd")}
        if dirs:
            r.ob("directory-restored", main.qual, bool(dirs[-1].args) and dirs[-1].args[0] in starts, "main returns in another directory", dirs[-1])
        parse = [e for e in calls if e.name == "parse_args" and e.val.k != "exc"]
        for e in parse:
            a = e.args[0] if e.args else None
            none = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "is", argv, NONE)), None)
            if any(v == argv and pol for _, v, pol, _ in assumes(p)):
                none = False
            if none is False:
                r.ob("arguments", main.qual, a is not None and mentions(a, argv) and a != argv, "%s are parsed" % show(a), e)
            if a is not None and a.k == "app" and a.a[0] == "slice":
                r.ob("arguments", main.qual, is_const(a.a[2], 1) and all(is_none(x) for x in a.a[3:]), "%s are parsed" % show(a), e)
        runs = [e for e in calls if e.fi is f]
        r.ob("arguments", main.qual, len(runs) <= 1, "the server is run %d times" % len(runs), main)
        for e in runs:
            m += 1
            r.ob("arguments", main.qual, any(e.args[0] == x.val for x in parse), "the server is run with %s" % show(e.args[0] if e.args else None), e)
            if e.val.k != "exc" and not any(x.kind == "catch" for x in p.events):
                r.ob("result", main.qual, p.val == e.val, "main returns %s" % show(p.val), e)
        caught = [e for e in p.events if e.kind == "catch"]
        if caught:
            code = V("attr", caught[-1].val, "code")
            none = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "is", code, NONE)), None)
            r.ob("result", main.qual, p.val == code or none is True and is_const(p.val), "main returns %s after an exit was requested" % show(p.val), main)
        else:
            r.ob("result", main.qual, bool(runs), "main returns without having run the server", main)
    r.ob("arguments", main.qual, m > 0, "the server is never run", main)
    r.require("configured", "started", "result")
