"""G03: everything a server runs shares its clock and its data, applications included."""
from rules._daemon import *
from rules.g01 import QUIETS, SELF

FREE = {"create_daemon_manager_commander", "create_channel_commander", "create_udp_client_commander", "register_http_handlers", "discover_ipv4_mtu", "discover_mtu", "mtu_to_usable"}
SEEN = QUIET | {"DaemonBase.set_state", "DaemonBase.reset_metric", "TimeKeeper.add_slave", "vtelem.classes.user_enum:from_enum"}


def ctors(fi, st):
    return not (fi.name == "__init__" and fi.cls is not None) and fi.qual not in QUIETS and not (fi.cls is None and fi.name in FREE)


def named(p, e, name):
    """Whether the call (get) names the daemon `name`."""
    return e.kind == "call" and e.name == "get" and len(e.args) == 1 and e.args[0] == name


def fact(p, v):
    """What the path assumed of the truth of v."""
    for _, x, pol, _e in assumes(p):
        if x == v:
            return pol
    return None


def application(r):
    f = r.method("TelemetryServer", "register_application")
    name, rate, setup, loop = (V("sym", x) for x in ("name", "rate", "setup", "loop"))
    daemons = V("attr", SELF, "daemons")
    w = r.walker(inline_pred=ctors, opaque=QUIETS, try_raise=False)
    for p in r.paths(f, w):
        added = [e for e in p.events if e.kind == "call" and e.name == "add_daemon"]
        made = [e for e in p.events if e.kind == "new" and r.made(e, "Daemon")]
        if p.kind == "exc" and not added:
            continue            # the telemetry daemon is missing
        ok = len(added) == 1 and len(made) == 1 and len(added[0].args) >= 1 and added[0].args[0] == made[0].val and added[0].recv == daemons
        r.ob("one-daemon", f.qual, ok, "registering an application makes %d daemons and hands %d over" % (len(made), len(added)), (added + made + [f])[0])
        if not ok:
            continue
        m, a = made[0], added[0]
        telem = [e for e in p.events if named(p, e, const("telemetry"))]
        r.ob("named", f.qual, m.kw.get("name") == name and m.kw.get("rate") == rate, "the application runs as %s at %s, not under the name and rate it was registered with" % (show(m.kw.get("name")), show(m.kw.get("rate"))), m)
        env, tk = m.kw.get("env"), m.kw.get("time_keeper")
        r.ob("shared-data", f.qual, any(env == e.val and e.recv == daemons for e in telem), "the application's daemon reports to %s, not to the server's telemetry" % show(env), m)
        r.ob("shared-clock", f.qual, tk == V("attr", SELF, "time_keeper"), "the application's daemon follows %s, not the server's clock" % show(tk), m)
        deps = p.st.store.get(("C", a.args[1])) if len(a.args) > 1 else a.kw.get("depends_on") and p.st.store.get(("C", a.kw["depends_on"]))
        items = elements(p, a.args[1] if len(a.args) > 1 else a.kw.get("depends_on"))
        r.ob("depends", f.qual, None if items is None else items == ["telemetry"], "the application's daemon depends on %s, not on the telemetry" % (items,), a)
        # what the daemon calls
        given = []
        for key, want, what in (("task", loop, "loop"), ("init", setup, "setup")):
            fn = m.kw.get(key)
            if fn is None or fn.k not in ("func", "bound"):
                r.ob("calls-" + what, f.qual, None if fn is not None and not is_none(fn) else False, "the application's daemon has no function calling its %s" % what, m)
                continue
            data = set()
            for q in r.call(r.walker(inline_pred=ctors, opaque=QUIETS, try_raise=False), fn, [V("sym", "started_with")], st=p.st):
                calls = [e for e in q.events[len(p.events) if q.events[:len(p.events)] == p.events else 0:] if e.kind == "call" and e.fn is not None and e.fn in (setup, loop)]
                good = len(calls) == 1 and calls[0].fn == want and len(calls[0].args) == 2
                r.ob("calls-" + what, f.qual, good, "one %s of the application calls %s" % ("cycle" if what == "loop" else "start", ", ".join(show(e.fn) for e in calls) or "nothing of it"), calls[0] if calls else m)
                if good:
                    r.ob("given-groups", f.qual, calls[0].args[0] == V("attr", SELF, "channel_groups"), "the application's %s gets %s, not the server's channel groups" % (what, show(calls[0].args[0])), calls[0])
                    data.add(calls[0].args[1])
            given.append(data)
        if len(given) == 2 and all(len(d) == 1 for d in given):
            d, d2 = list(given[0])[0], list(given[1])[0]
            r.ob("same-data", f.qual, d == d2, "the application's setup and loop are given different data", m)
            own = fresh(d)
            r.ob("own-data", f.qual, own if own or d.k in ("attr", "sym", "global", "item", "const", "obj") else None, "applications share their data: each is given %s" % show(d), m)
        elif len(given) == 2 and all(given):
            r.ob("same-data", f.qual, False, "the data the application is given changes from call to call", m)
        # what it answers and starts
        was = a.val
        took = fact(p, was)
        first = fact(p, V("attr", SELF, "first_start"))
        starts = [e for e in p.events if e.kind == "call" and e.name in ("perform", "start") and e.fi is not None and r.p.is_sub(e.fi.cls, r.cls("DaemonBase")) and
                  (e.name == "start" or e.args and e.args[0].k == "enum" and e.args[0].a[1] == "START")]
        every = [e for e in p.events if e.kind == "call" and e.name == "perform_all"]
        if p.kind == "exc":
            ours = [e for e in p.events if e.kind == "assume"]
            failed_start = any(fact(p, e.val) is False for e in starts)
            missing = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            r.ob("answers", f.qual, took is not False and (failed_start or missing or took is True), "registering an application under a taken name raises instead of answering so", ours[-1] if ours else f)
            continue
        r.ob("answers", f.qual, p.val == was or is_const(p.val) and cval(p.val) is took and took is not None, "registering answers %s, not whether the application was added" % show(p.val), a)
        right = [e for e in starts if e.recv == m.val or any(e.recv == g.val and named(p, g, name) and g.recv == daemons for g in p.events if g.kind == "call")]
        if first is True:
            r.ob("started", f.qual, not starts and not every, "an application registered before the server starts is started at once", (starts + every + [f])[0])
        elif took is False:
            r.ob("only-its-own", f.qual, not starts and not every, "registering under a taken name starts the daemon which has it", (starts + every + [f])[0])
        elif first is False and took is True:
            r.ob("started", f.qual, len(right) == 1 and len(starts) == 1 and not every, "an application added to a started server is started %d times" % len(right), (starts + every + [f])[0])
        elif first is False:
            r.ob("only-its-own", f.qual, not starts and not every, "a started server starts the daemon of that name whether or not the application was added", (starts + every + [f])[0])
        else:
            r.ob("started", f.qual, not starts and not every and p.val is not None and took is False, "the application is started (or not) whether or not the server has been", (starts + every + [f])[0])


def elements(p, lst):
    """The constant names in a list argument, None when not known."""
    if lst is None or is_none(lst):
        return []
    c = p.st.store.get(("C", lst))
    if c is None and lst.k == "tuple":
        c = lst.a
    if c is None:
        return None
    out = []
    for x in c:
        if not (isinstance(x, V) and is_const(x)):
            return None
        out.append(cval(x))
    return out


def followers(r):
    """Every kind of daemon: given a keeper and an environment, follows the one and reports to the other."""
    base, chan, te = r.cls("DaemonBase"), r.cls("ChannelEnvironment"), r.cls("TelemetryEnvironment")
    apart = [r.cls(x) for x in ("Registry", "UserEnum", "TypePrimitive")]
    tk = V("sym", "time_keeper")
    n = 0

    def pred(fi, st):
        c = fi.cls
        if fi.qual in SEEN:
            return False
        return c is None or not (r.p.is_sub(c, chan) and not r.p.is_sub(c, base) or any(r.p.is_sub(c, x) for x in apart))
    for ci in sorted((c for c in r.p.classes if r.p.is_sub(c, base)), key=lambda c: c.name):
        f = r.p.find_method(ci, "__init__")
        if f is None or "time_keeper" not in f.params or ci.name == "TelemetryServer":
            continue
        n += 1
        env = SELF if r.p.is_sub(ci, te) else V("sym", "env")
        if env != SELF and "env" not in f.params:
            continue
        st = St()
        for p in r.call(r.walker(opaque=SEEN, try_raise=False, inline_pred=pred), V("bound", f, V("sym", "self", ty=("c", ci))), [V("sym", a) for a in f.params[1:]], st=st):
            if p.kind == "exc":
                continue
            none = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == tk and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            adds = [e for e in p.events if e.kind == "call" and e.name == "add_slave"]
            fn = p.st.store.get(("A", SELF, "function"))
            if none:
                r.ob("follows", ci.name, not adds, "a %s made without a keeper follows one" % ci.name, adds[0] if adds else f)
            else:
                r.ob("follows", ci.name, len(adds) == 1 and adds[0].recv == tk and adds[0].args and adds[0].args[0] == SELF,
                     "a %s made with a keeper is added to its followers %d times" % (ci.name, len(adds)), adds[0] if adds else f)
                for key, attr in (("sleep", "sleep"), ("time", "time_function")):
                    v = p.st.store.get(("I", fn, const(key))) if fn is not None else None
                    good = v is not None and (v == V("attr", tk, attr) or v.k == "bound" and v.a[0].name == attr and v.a[1] == tk)
                    r.ob("keeper-" + key, ci.name, None if v is None else good, "a %s made with a keeper takes its %s from %s, so scaling the clock passes it by" % (ci.name, key, show(v)), f)
            got = p.st.store.get(("A", SELF, "env"))
            r.ob("reports-to", ci.name, got == env, "a %s reports to %s, not to the environment it was given" % (ci.name, show(got)), f)
    return n


def built(r):
    """The server hands its own clock, data, writer and command queue to everything it makes."""
    f = r.method("TelemetryServer", "__init__")
    base = r.cls("DaemonBase")
    for p in r.paths(f, r.walker(inline_pred=ctors, opaque=QUIETS, try_raise=False)):
        if p.kind == "exc":
            continue
        new = [e for e in p.events if e.kind == "new"]
        one = {}
        for c in ("TimeKeeper", "TelemetryDaemon", "StreamWriter", "CommandQueueDaemon", "UdpClientManager", "ChannelGroupRegistry", "DaemonManager"):
            es = [e for e in new if r.made(e, c)]
            r.ob("one-of-each", c, len(es) == 1, "constructing a server makes %d of %s" % (len(es), c), es[-1] if es else f)
            if len(es) == 1:
                one[c] = es[0]
        if len(one) < 7:
            continue
        clock, telem, writer, queue, udp, groups, mgr = (one[c].val for c in ("TimeKeeper", "TelemetryDaemon", "StreamWriter", "CommandQueueDaemon", "UdpClientManager", "ChannelGroupRegistry", "DaemonManager"))
        for e in new:
            ci = r.made(e, None)
            if ci is None or not r.p.is_sub(ci, base) or e.val == clock:
                continue
            r.ob("clock-of", ci.name, e.kw.get("time_keeper") == clock, "the server's %s follows %s, not the server's clock" % (ci.name, show(e.kw.get("time_keeper"))), e)
            if e.val != telem:
                r.ob("telemetry-of", ci.name, e.kw.get("env") == telem, "the server's %s reports to %s, not to the server's telemetry" % (ci.name, show(e.kw.get("env"))), e)
            if "writer" in e.kw:
                r.ob("writer-of", ci.name, e.kw["writer"] == writer, "the server's %s takes frames from %s, not from the server's writer" % (ci.name, show(e.kw["writer"])), e)
        sup = [e for e in p.events if e.kind == "call" and e.name == "__init__" and e.recv == SELF]
        for e in sup:
            names = e.fi.params[1:] if e.fi is not None else []
            b = dict(zip(names, e.args))
            b.update({k: v for k, v in (e.kw or {}).items() if k in names})
            r.ob("clock-of", f.cls.name, b.get("time_keeper") == clock and b.get("env") == telem, "the server itself follows %s and reports to %s" % (show(b.get("time_keeper")), show(b.get("env"))), e)
        fq = one["StreamWriter"].kw.get("frame_queue")
        r.ob("frames-written", f.qual, fq == V("attr", telem, "frame_queue"), "the server's writer reads %s, not the queue the telemetry fills" % show(fq), one["StreamWriter"])
        r.ob("clients-of", f.qual, one["UdpClientManager"].kw.get("writer") == writer, "the server's clients are attached to %s, not to its writer" % show(one["UdpClientManager"].kw.get("writer")), one["UdpClientManager"])
        r.ob("groups-of", f.qual, one["ChannelGroupRegistry"].kw.get("env") == telem, "the server's channel groups belong to %s, not to its telemetry" % show(one["ChannelGroupRegistry"].kw.get("env")), one["ChannelGroupRegistry"])
        for attr, v in (("time_keeper", clock), ("channel_groups", groups), ("udp_clients", udp), ("daemons", mgr)):
            got = p.st.store.get(("A", SELF, attr))
            r.ob("kept", "%s.%s" % (f.cls.name, attr), got == v, "the server keeps %s as its %s, not the one its services use" % (show(got), attr), f)
        for fn, want in (("create_channel_commander", (telem, queue)), ("create_daemon_manager_commander", (mgr, queue)), ("create_udp_client_commander", (udp, queue)), ("register_http_handlers", (SELF, telem, queue))):
            cs = [e for e in p.events if e.kind == "call" and e.name == fn]
            got = tuple(cs[0].args) + tuple(cs[0].kw.get(x) for x in (cs[0].fi.params if cs[0].fi is not None else [])[len(cs[0].args):]) if cs else ()
            r.ob("commanded", fn, len(cs) == 1 and got[:len(want)] == want, "%s is called %d times%s" % (fn, len(cs), " with " + ", ".join(show(x) for x in got) if cs else ""), cs[0] if cs else f)


def check(r):
    r.rule("Registering an application: every path which adds it makes one Daemon with the name and rate given, the server's telemetry as its environment and the server's time keeper, and hands it to the daemon manager once, depending on the telemetry; the functions "
           "handed to it call the application's loop (its setup) once each, with the server's channel groups and one data object, made in that call and the same for both; the answer is the daemon manager's, and the daemon is started, once, exactly where it was added "
           "and the server had started. Constructing a server: one each of clock, telemetry, writer, command queue, channel groups and clients; every daemon made gets that clock and that telemetry (and writer), the writer reads the telemetry's frame queue, and each "
           "set of commands and HTTP handlers is registered once on the server's own objects. Every kind of daemon: made with a keeper it is added to the keeper's followers once and sleeps and reads time by it; the environment it keeps is the one given.")
    r.assume("Constructors not followed keep what they are given, which the obligations on each kind of daemon establish for the clock and the environment.")
    r.made = lambda e, c: made(r, e, c)
    application(r)
    built(r)
    followers(r)
    r.require("one-daemon", "follows", "one-of-each", "commanded", "clock-of")


def made(r, e, c):
    """The class a construction makes: the one named c, or any."""
    ci = next((x for x in r.p.classes if x.name == e.name), None)
    return (ci if c is None else ci is not None and ci.name == c)
