"""L04: shared tables and counters change only under their lock."""
from rules._locks import Locks
from vsa.model import FI
from vsa.q import *
from vsa.walk import St

# attribute -> functions of the reviewed tree that change it and hold the lock themselves
GUARDED = {
    ("ChannelEnvironment", "metrics"): {"ChannelEnvironment.add_metric", "TelemetryEnvironment.add_enum_metric"},
    ("TelemetryEnvironment", "enum_channel_types"): {"TelemetryEnvironment.add_enum_channel"},
    ("ChannelFramer", "channels"): set(),
    ("DaemonBase", "function"): {"DaemonBase.increment_metric", "DaemonBase.decrement_metric", "DaemonBase.reset_metric", "Daemon.set_rate"},
    ("DaemonBase", "state"): {"DaemonBase.set_state"},
    ("DaemonBase", "thread"): {"DaemonBase.start", "DaemonBase.stop"},
    ("DaemonManager", "daemons"): {"DaemonManager.add_daemon"},
    ("DaemonManager", "depends_on"): {"DaemonManager.add_daemon"},
    ("EnumRegistry", "curr_id"): {"EnumRegistry.add", "EnumRegistry.init"},
    ("EnumRegistry", "data"): {"EnumRegistry.add", "EnumRegistry.export", "EnumRegistry.init"},
    ("EnumRegistry", "enums"): {"EnumRegistry.add", "EnumRegistry.init"},
    ("Registry", "curr_id"): {"Registry.add"},
    ("Registry", "data"): {"Registry.add"},
    ("EventLoopDaemon", "wait_count"): {"EventLoopDaemon.__init__.<locals>.event_loop_stopper", "WebsocketDaemon.__init__.<locals>.handler",
                                        "WebsocketClient.__init__.<locals>.connect"},
    ("HttpDaemon", "closed"): {"HttpDaemon.close"},
    ("HttpDaemon", "ssl_context"): {"HttpDaemon.use_tls"},
    ("QueueClientManager", "active_client_queues"): {"QueueClientManager.add_client_queue"},
    ("StateMachine", "_data"): {"StateMachine.run"},
    ("StateMachine", "current_state"): {"StateMachine.run"},
    ("StreamWriter", "curr_id"): {"StreamWriter.add_stream"},
    ("StreamWriter", "streams"): {"StreamWriter.add_stream", "StreamWriter.remove_stream"},
    ("StreamWriter", "stream_attrs"): {"StreamWriter.add_stream", "StreamWriter.remove_stream"},
    ("StreamWriter", "stream_closers"): {"StreamWriter.add_stream", "StreamWriter.remove_stream"},
    ("StreamWriter", "queue_id"): {"StreamWriter.add_queue"},
    ("StreamWriter", "queues"): {"StreamWriter.add_queue", "StreamWriter.remove_queue"},
    ("TcpTelemetryDaemon", "client_sems"): {"TcpTelemetryDaemon.__init__.<locals>.stopper", "TcpTelemetryHandler.handle"},
    ("TimeEntity", "time"): {"TimeEntity.advance_time", "TimeEntity.set_time"},
    ("TimeKeeper", "last_time_eval"): {"TimeKeeper.iteration"},
    ("TimeKeeper", "scalar"): {"TimeKeeper.scale"},
    ("TimeKeeper", "slaves"): {"TimeKeeper.add_slave"},
    ("UdpClientManager", "clients"): {"UdpClientManager.__init__.<locals>.closer", "UdpClientManager.add_client"},
    ("UdpClientManager", "stream_ids"): set(),
}
# keys of DaemonBase.function which are fixed while constructing and are no shared counters
# tables whose elements are visited by one thread while others add and remove
ITERATED = {("StreamWriter", "queues"), ("StreamWriter", "streams"), ("TimeKeeper", "slaves"), ("ChannelFramer", "channels"),
            ("UdpClientManager", "clients"), ("DaemonManager", "daemons"), ("QueueClientManager", "active_client_queues"),
            ("TcpTelemetryDaemon", "client_sems"), ("EnumRegistry", "enums")}
QMUT = {"put", "put_nowait"}


def check(r):
    r.rule("Every write to a guarded attribute (or to a table reached through one), outside of construction, happens with the lock of the object "
           "owning it held, in the function itself or, for helpers, at every call of the helper; a new value computed from the old one is "
           "computed from a read made in the same critical section. Guarded attributes are the reviewed table plus every attribute some "
           "function changes under its object's lock.")
    r.assume("Writes in __init__ happen before the object is shared.")
    L = Locks(r)
    g = L.g

    def target(e):
        """(class, attr, base value) of the outermost repository attribute changed by event e."""
        x = e.recv if e.kind != "write" else V("attr", e.recv, e.name)
        depth = 0
        while isinstance(x, V) and x.k in ("attr", "item", "elem", "key"):
            if x.k == "attr":
                ty = L.ty(x.a[0])
                if ty and ty[0] == "c":
                    return ty[1], x.a[1], x.a[0], depth
            x = x.a[0]
            depth += 1
        return None

    def fam(c, a):
        for m in r.p.mro(c):
            if (getattr(m, "name", m), a) in GUARDED:
                return GUARDED[(getattr(m, "name", m), a)]
        return None

    def own_lock(b):
        return V("attr", b, "lock")

    def holds(e, b, c, f):
        """Is the lock of object b (of class c) held at e?"""
        want = own_lock(b)
        for v, i in e.locks:
            if v == want:
                return True
            o = L.site_owner(v, f)
            if o is not None and c in L.alias and L.alias[c] in (L.conc(o, f) if o == "self" else {o}):
                return True
            # the lock of the object the base was taken from guards a table of that same class only through its own lock
        return False
    writes = []
    inferred = {}
    for f, evs in g.evs.items():
        for e in evs:
            if e.kind in ("write", "store", "del", "delattr") or (e.kind == "call" and e.fi is None and e.name in MUT and e.name not in QMUT):
                if e.recv is None or fresh(e.recv):
                    continue
                t = target(e)
                if t is None:
                    continue
                c, a, b, d = t
                if e.kind in ("store", "call") and d == 0 and False:
                    continue
                h = holds(e, b, c, f)
                if f.name in ("__init__",) and b.k == "sym" and b.a[0] == "self":
                    continue
                writes.append((f, e, c, a, b, h))
                if h:
                    inferred.setdefault((c, a), []).append(f)

    def guarded(c, a):
        if fam(c, a) is not None:
            return True
        return any((m, a) in inferred for m in r.p.mro(c))

    def strict(c, a, f):
        s = fam(c, a)
        return s is not None and f.qual in s

    def callers_hold(f, seen=()):
        """Every call of helper f holds its object's lock; returns a witness (caller, event) otherwise."""
        if f in seen:
            return None
        cs = g.callers.get(f, set())
        if f.is_property and not cs:
            return None
        if not cs:
            return (f, None)
        for c in cs:
            for e, ts in g.calls.get(c, []):
                if f not in ts:
                    continue
                if e.kind == "enter" and f.is_property:
                    pass
                top = c
                while top.parent is not None:
                    top = top.parent
                if c.name == "__init__" and (e.recv is None or (e.recv.k == "sym" and e.recv.a[0] == "self") or e.recv.k == "super"):
                    continue
                if e.recv is not None and fresh(e.recv):
                    continue
                owners = [L.alias.get(x, x) for x in ([f.cls] if f.cls else [])]
                ok = False
                for v, _ in e.locks:
                    o = L.site_owner(v, c)
                    if o is None:
                        continue
                    for m in L.map_owner("self", e, f, c):
                        if m == o:
                            ok = True
                        if m != "self" and o == "self" and m in L.conc("self", c):
                            ok = True
                        if m == "self" and o != "self" and o in L.conc("self", c):
                            ok = True
                    if e.recv is not None and v == own_lock(e.recv):
                        ok = True
                    if f.cls in L.alias and L.alias[f.cls] in (L.conc(o, c) if o == "self" else {o}):
                        ok = True
                if ok:
                    continue
                bad = callers_hold(c, seen + (f,)) if not any(c.qual in s for s in GUARDED.values()) and (
                    c.cls is f.cls or c.parent is not None or r.private(c) and c.cls is not None and f.cls in L.alias
                    and (r.p.is_sub(c.cls, L.alias[f.cls]) or r.p.is_sub(L.alias[f.cls], c.cls))) else (c, e)
                if bad is not None:
                    return bad if bad[1] is not None else (c, e)
        return None

    def names(c):
        return [getattr(m, "name", m) for m in r.p.mro(c)]

    n = 0
    todo = set()
    for f, e, c, a, b, h in writes:
        if not guarded(c, a):
            continue
        if a == "function" and not h:
            # entries of the function table other than metrics_data and rate are set up while constructing
            x = e.recv if e.kind != "write" else None
            key = x.a[1] if x is not None and x.k == "item" else (e.args[0] if e.args else None)
            if not (key is not None and is_const(key) and cval(key) in ("metrics_data", "rate")):
                continue
        n += 1
        todo.add(f)
        cons = "%s:%s.%s" % (f.qual, c.name, a)
        if h:
            r.ob("guarded-write", cons, True, "", e)
            continue
        if strict(c, a, f):
            r.ob("guarded-write", cons, False, "%s.%s is changed without the lock that guards it" % (c.name, a), e)
            continue
        if not (b.k == "sym" and b.a[0] == "self") or (f.parent is not None and not g.callers.get(f)):
            r.ob("guarded-write", cons, False, "%s.%s is changed without the lock that guards it" % (c.name, a), e)
            continue
        bad = callers_hold(f)
        r.ob("guarded-write", cons, bad is None, "" if bad is None else "%s.%s is changed without the lock that guards it; %s" % (
            c.name, a, "nothing calls this under it" if bad[1] is None else "called without it at %s" % bad[1].where), e)
    # lost updates: new value computed from a read outside of the critical section
    for f in sorted(todo, key=lambda x: x.qual):
        top = f
        while top.parent is not None:
            top = top.parent
        own = set(r.p.mro(top.cls)) if top.cls is not None else set()
        w = r.walker(track_reads=True, loop=(0, 1), while_max=1, max_depth=3,
                     inline_pred=lambda fi, st: fi.is_property or fi.is_ctxmgr or (fi.cls in own and not fi.name.startswith("__")) or fi.parent is top)
        for p in r.paths(f, w):
            for i, e in enumerate(p.events):
                if e.kind not in ("write", "store") or fresh(e.recv):
                    continue
                t = target(e)
                if t is None or not guarded(t[0], t[1]) or not e.locks:
                    continue
                term = V("attr", e.recv, e.name) if e.kind == "write" else V("item", e.recv, e.args[0])
                if not mentions(e.val, term):
                    continue
                rd = [x for x in p.events[:i] if x.kind in ("read", "readitem")
                      and (V("attr", x.recv, x.name) if x.kind == "read" else V("item", x.recv, x.args[0] if x.args else x.val)) == term]
                if not rd:
                    continue
                r.ob("read-modify-write", "%s:%s.%s" % (f.qual, t[0].name, t[1]), bool(ids(rd[-1]) & ids(e)),
                     "the new value of %r is computed from a value read outside of the critical section" % term, e)
    # tables read element by element (or copied) while others change them
    for f, evs in g.evs.items():
        top = f
        while top.parent is not None:
            top = top.parent
        if top.cls is None or f.name == "__init__":
            continue
        own = set(r.p.mro(top.cls))
        if not any((m, t) in ITERATED for m in names(top.cls) for _, t in ITERATED) or (f.parent is None and f.is_property):
            continue
        w = r.walker(track_reads=True, loop=(0, 1), while_max=1, max_depth=3,
                     inline_pred=lambda fi, st: fi.is_ctxmgr or fi.is_property or (fi.cls in own and r.private(fi)))
        for p in r.paths(f, w):
            tabs = set()
            for e in p.events:
                x = (e.val if e.val is not None else e.recv) if e.kind == "iter" else None
                for y in (subterms(x) if x is not None else ()):
                    if y.k == "attr" and y.a[0].k == "sym" and y.a[0].a[0] == "self" and any((m, y.a[1]) in ITERATED for m in names(top.cls)):
                        tabs.add(y)
            for e in p.events:
                if e.kind == "read" and V("attr", e.recv, e.name) in tabs:
                    ok = any(v == own_lock(e.recv) or L.site_owner(v, f) == "self" for v, _ in e.locks)
                    bad = None if ok else callers_hold(f)
                    r.ob("guarded-iteration", "%s:%s" % (f.qual, e.name), ok or bad is None,
                         "%s is read element by element here, and not under the lock that guards it" % e.name, e)
    r.require("guarded-write", "read-modify-write", "guarded-iteration")
    r.rule("%d writes to guarded state examined." % n)
