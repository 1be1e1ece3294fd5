"""D06: stopping a socket server ends every connection it opened, and waits for each exactly once."""
from rules._daemon import *
from rules.g04 import truth

SELF = V("sym", "self")
OPQ = METRICS | QUIET | {"vtelem.mtu:host_resolve_zero", "ServiceRegistry.add", "Registry.add", "DaemonBase.reset_metric"}


def attr(st, me, name):
    return st.store.get(("A", me, name), V("attr", me, name))


def held(e, me):
    return any((l[0] if isinstance(l, tuple) else l) == V("attr", me, "lock") for l in e.locks or ())


def fresh_count(st, me):
    st = st.fork()
    st.store.pop(("A", me, "wait_count"), None)
    return st


def setup(r):
    """A websocket daemon, its functions and what handles a connection."""
    f = r.method("WebsocketDaemon", "__init__")
    kw = {x: V("sym", x) for x in f.params[1:]}
    kw.update(env=NONE, time_keeper=NONE)
    out = {}
    for me, st in r.construct(r.walker(opaque=OPQ, try_raise=False, max_paths=3000), r.cls("WebsocketDaemon"), [], kw):
        fns = {k: st.store.get(("I", st.store.get(("A", me, "function")), const(k))) for k in ("run_init", "inject_stop")}
        if any(v is None or v.k not in ("func", "bound") for v in fns.values()):
            continue
        for p in r.call(r.walker(opaque=OPQ, try_raise=False), fns["run_init"], [], st=st):
            hs = [e.args[0] for e in p.events if e.kind == "call" and (e.name or "").split(".")[-1] == "serve" and e.args]
            if p.kind != "exc" and hs and hs[0].k in ("func", "bound"):
                dflt = p.st.store.get(("L", hs[0].a[1], "ws_handler")) if hs[0].k == "func" else None
                out.setdefault((show(hs[0]), show(dflt) if dflt is not None else ""), (me, p.st, fns, hs[0], dflt))
    return f, list(out.values())


def connections(r, f, me, st, fn, given):
    """Every way a connection can go."""
    f = fn.a[0]
    ws, path = V("sym", "websocket"), V("sym", "path")
    poster = attr(st, me, "wait_poster")
    st = fresh_count(st, me)
    cnt = V("attr", me, "wait_count")
    user = given is not None and given.k == "sym"

    def raises(e):
        return ["RuntimeError"] if e.kind == "call" and user and e.fn == given else []
    n = 0
    for p in r.call(r.walker(opaque=OPQ, raises=raises, volatile=("wait_count",), track_reads=True, loop=(0, 1)), fn, [ws, path], st=st):
        ups = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "wait_count" and e.recv == me]
        posts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "release" and e.recv == poster]
        closes = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "close" and e.recv == ws]
        serves = [i for i, e in enumerate(p.events) if user and e.kind == "call" and e.fn == given or not user and e.kind in ("iter", "enter", "leave") and i and mentions(V("tup", *[a for a in e.args if isinstance(a, V)]), ws)]
        n += 1
        reads = [e for e in p.events if e.kind == "read" and e.name == "wait_count"]
        one = [e for i, e in ups if any(lin_eq(e.val, V("bin", "+", x, const(1))) for x in [cnt] + [y.val for y in reads])]
        r.ob("counted-once", f.qual, len(ups) == 1 and len(one) == 1 and (not serves or ups[0][0] < serves[0]), "a connection is counted %d times%s" % (len(ups), "" if len(ups) != 1 else ", as " + show(ups[0][1].val)), (ups or [(0, f)])[-1][1])
        for i, e in ups:
            r.ob("counted-once", f.qual, held(e, me) and all(held(x, me) for x in reads), "a connection is counted without the lock, so that counts get lost", e)
        r.ob("posted-once", f.qual, len(posts) == len(ups), "a connection which ends (%s) is posted %d times" % (p.exc_name if p.kind == "exc" else "normally" if not any(e.kind == "catch" for e in p.events) else [e for e in p.events if e.kind == "catch"][-1].name, len(posts)), (posts or [(0, f)])[-1][1])
        for i, e in posts:
            r.ob("posted-at-end", f.qual, not serves or i > serves[-1], "a connection is posted before it is served to its end", e)
        r.ob("connection-closed", f.qual, bool(closes) and (not serves or closes[-1][0] > serves[-1]) and any(e.kind == "await" and e.val == closes[-1][1].val for e in p.events), "a connection is not closed when what serves it ends", closes[-1][1] if closes else f)
        if user:
            es = [e for e in p.events if e.kind == "call" and e.fn == given]
            r.ob("served", f.qual, len(es) == 1 and es[0].args == (ws, path), "a connection is handed to what serves it %d times" % len(es), es[-1] if es else f)
            if es and es[0].val.k != "exc":
                r.ob("served", f.qual, any(e.kind == "await" and e.val == es[0].val for e in p.events), "what serves a connection is not awaited", es[0])
    r.ob("counted-once", f.qual, n > 0, "no connection is ever served", f)
    return f


def client(r):
    """The connection a client opens."""
    f = r.method("WebsocketClient", "__init__")
    kw = {x: V("sym", x) for x in f.params[1:]}
    kw.update(time_keeper=NONE)
    opq = OPQ | {"TelemetryClient.handle_frames", "FrameProcessor.process", "TelemetryClient.__init__", "DaemonBase.__init__", "Daemon.__init__"}
    users = set()
    seen = set()
    made = OPQ | {"TelemetryEnvironment.add_from_enum", "TelemetryEnvironment.add_enum", "ChannelEnvironment.add_from_enum", "EnumRegistry.add_from_enum", "EnumRegistry.add_enum", "vtelem.classes.user_enum:from_enum"}
    for me, st in r.construct(r.walker(opaque=made | {"TelemetryClient.__init__"}, try_raise=False, max_paths=3000), r.cls("WebsocketClient"), [], kw):
        fn = st.store.get(("I", st.store.get(("A", me, "function")), const("run_init")))
        if fn is None or fn.k not in ("func", "bound") or show(fn) in seen:
            continue
        seen.add(show(fn))
        poster = attr(st, me, "wait_poster")
        st = fresh_count(st, me)
        for k in ("connected", "state"):
            st.store.pop(("A", me, k), None)
        cnt = V("attr", me, "wait_count")
        n = 0
        w = r.walker(opaque=opq, volatile=("state", "wait_count"), track_reads=True, loop=(0, 1), while_max=1, raises=lambda e: ["RuntimeError"] if e.kind == "call" and e.name == "handle_frames" else [])
        for p in r.call(w, fn, [], st=st):
            opens = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] == "connect" and e.val.k != "exc"]
            tried = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] == "connect"]
            ups = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "wait_count" and e.recv == me]
            posts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "release" and e.recv == poster]
            users |= {e.stack[-1] for _, e in ups + posts if e.stack}
            had = next((pol for _, v, pol, _e in assumes(p) if v == V("attr", me, "connected")), None)
            r.ob("one-connection", f.qual, not tried or had is False, "a client opens a connection while it has one", tried[-1][1] if tried else f)
            if not tried and not ups and not posts:
                r.ob("one-connection", f.qual, had is True or any(e.kind == "call" and e.val is not None and e.val.k == "exc" for e in p.events), "a client without a connection does not open one", f)
                continue
            n += 1
            reads = [e for e in p.events if e.kind == "read" and e.name == "wait_count"]
            r.ob("counted-once", f.qual, len(ups) == 1 and any(lin_eq(ups[0][1].val, V("bin", "+", x, const(1))) for x in [cnt] + [y.val for y in reads]) and (not tried or ups[0][0] < tried[0][0]) and all(held(e, me) for e in [ups[0][1]] + reads),
                 "a client's connection is counted %d times before it is opened" % len(ups), (ups or tried)[0][1])
            last = max([i for i, e in enumerate(p.events) if e.kind == "exit_ctx" or e.kind == "call" and e.name in ("recv", "handle_frames", "process")] + [-1])
            r.ob("posted-once", f.qual, len(posts) == len(ups), "a client's connection which ends (%s) is posted %d times" % ([e for e in p.events if e.kind == "raise"][-1].name if any(e.kind == "raise" for e in p.events) else "normally", len(posts)), (posts or ups or tried)[-1][1])
            for i, e in posts:
                r.ob("posted-at-end", f.qual, i > last, "a client's connection is posted while it is read", e)
            for i, e in opens:
                r.ob("connection-closed", f.qual, any(x.kind == "exit_ctx" and x.recv == e.val for x in p.events[i:]) or any(x.kind == "call" and x.name == "close" and x.recv is not None and mentions(x.recv, e.val) for x in p.events[i:]), "a client's connection stays open when it is no longer read", e)
            end = [e for e in p.events if e.kind == "write" and e.name == "connected" and e.recv == me]
            r.ob("one-connection", f.qual, bool(end) and is_const(end[-1].val) and cval(end[-1].val) is False, "a client whose connection ended thinks that it has one", end[-1] if end else f)
            if opens:
                pre = [e for e in p.events[:opens[0][0] + 1] if e.kind == "write" and e.name == "connected" and e.recv == me]
                r.ob("one-connection", f.qual, bool(pre) and is_const(pre[-1].val) and cval(pre[-1].val) is True, "a client being connected does not know it, so it may connect again", opens[0][1])
        r.ob("counted-once", f.qual, True if n else None, "how a client connects is not understood", f)
    return users


def stopping(r, f, me, st, fn):
    """What stops the event loop."""
    f = fn.a[0]
    st = fresh_count(st, me)
    loop, poster, cnt = attr(st, me, "eloop"), attr(st, me, "wait_poster"), V("attr", me, "wait_count")
    n = 0
    # a time which does not pass: waiting for the tasks ends when they are done
    w = r.walker(opaque=OPQ, try_raise=False, loop=(0, 1, 2), while_max=2, volatile=("wait_count",), track_reads=True)
    for p in r.call(w, fn, [], st=st):
        if p.kind == "exc":
            continue
        n += 1
        reads = [(i, e) for i, e in enumerate(p.events) if e.kind == "read" and e.name == "wait_count"]
        ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "wait_count" and e.recv == me]
        takes = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "acquire" and e.recv == poster]
        stops = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "call_soon_threadsafe" and e.recv == loop and e.args and (e.args[0] == V("attr", loop, "stop") or e.args[0].k == "bound" and "stop" in show(e.args[0]))]
        r.ob("loop-stopped", f.qual, len(stops) == 1, "the event loop is told to stop %d times" % len(stops), stops[-1][1] if stops else f)
        if stops and takes:
            r.ob("loop-stopped", f.qual, stops[0][0] < takes[0][0], "connections are waited for before the event loop is told to stop", takes[0][1])
        for i, e in reads + ws:
            r.ob("count-locked", f.qual, held(e, me), "connections are counted without the lock", e)
        # as many posts taken as were counted
        base = reads[0][1].val if reads else None
        r.ob("waits-for-all", f.qual, base is not None, "how many connections were opened is not asked", f)
        if base is None:
            continue
        src = [e for e in p.events if e.kind in ("iter",) and e.args and mentions(e.args[0], base)]
        over = {show(e.args[0]) for e in src}
        exact = all(e.args[0] == V("call", "range", base) or show(e.args[0]).replace(" ", "") in ("range(%s)" % show(base), "range(0,%s)" % show(base)) for e in src)
        whiles = any(v.k == "cmp" and mentions(v, base) for _, v, pol, _e in assumes(p))
        r.ob("waits-for-all", f.qual, (exact if src else None if takes and whiles else not takes), "the wait is for %s connections, not for those counted" % (", ".join(over) or "other"), takes[0][1] if takes else f)
        if src:
            r.ob("waits-for-all", f.qual, len(takes) == len(src) and not left_early(p, src[0].args[0]), "%d posts are taken for %d connections" % (len(takes), len(src)), takes[-1][1] if takes else f)
        elif not takes and not whiles and not any(k.k == "call" and k.a and k.a[0] == "range" for k in p.facts):
            r.ob("waits-for-all", f.qual, None, "", f)
        later = [e.val for _, e in reads[1:]]
        same = [base] + [y for _, v, pol, _e in assumes(p) if pol and v.k == "cmp" and v.a[0] == "==" and base in v.a[1:] for y in v.a[1:] if y != base]
        # or taken off where the count is read, without letting go of the lock
        once = [e for _, e in ws if {l for l in e.locks or () if isinstance(l, tuple)} & {l for l in reads[0][1].locks or () if isinstance(l, tuple)}]
        for i, e in ws:
            ok = any(lin_eq(e.val, V("bin", "-", x, b)) for x in later for b in same) or e in once and lin_eq(e.val, const(0))
            r.ob("uncounted", f.qual, ok, "after stopping, the connections counted become %s: those just waited for are waited for again, or new ones are forgotten" % show(e.val), e)
        r.ob("uncounted", f.qual, len(ws) == 1 and (not takes or ws[0][0] > takes[-1][0] or ws[0][1] in once), "the connections waited for are taken off the count %d times" % len(ws), ws[-1][1] if ws else f)
        # every task is told
        tasks = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] == "all_tasks" and (e.arg(0, "loop") == loop)]
        r.ob("all-cancelled", f.qual, bool(tasks), "the tasks of the daemon's own event loop are not asked for", f)
        if tasks:
            t = tasks[0][1].val
            its = [e for e in p.events if e.kind == "iter" and e.args and (e.args[0] == t or mentions(e.args[0], t))]
            for e in its:
                c = [x for x in p.events if x.kind == "call" and x.name == "cancel" and x.recv == e.val]
                done = [x.val for x in p.events if x.kind == "call" and x.name == "done" and x.recv == e.val]
                if not c and any(pol and v in done for _, v, pol, _e in assumes(p)):
                    continue
                r.ob("all-cancelled", f.qual, len(c) >= 1 and (not stops or p.events.index(c[0]) < stops[0][0]), "a task of the event loop is not cancelled", e)
            r.ob("all-cancelled", f.qual, not its or not left_early(p, its[0].args[0]), "only some tasks of the event loop are cancelled", tasks[0][1])
            if not its:
                empty = p.facts.get(t) is False or any(v == t and not pol for _, v, pol, _e in assumes(p))
                used = any(e is not tasks[0][1] and any(isinstance(a, V) and mentions(a, t) for a in list(e.args) + [x for x in (e.kw or {}).values()]) for e in p.events if e.kind in ("call", "compiter", "enter"))
                r.ob("all-cancelled", f.qual, empty or (None if used else False), "the tasks of the event loop are not cancelled", tasks[0][1])
    r.ob("waits-for-all", f.qual, n > 0, "stopping never completes", f)
    return f


def running(r):
    f = r.method("EventLoopDaemon", "run")
    me = V("sym", "self", ty=("c", r.cls("EventLoopDaemon")))
    loop = V("attr", SELF, "eloop")
    n = 0
    for p in r.call(r.walker(opaque=METRICS), V("bound", f, me), []):
        if p.kind == "exc":
            continue
        n += 1
        runs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("run_forever", "run_until_complete") and e.recv == loop]
        sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name or "").split(".")[-1] == "set_event_loop"]
        inits = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fn is not None and "run_init" in show(e.fn) and e.val.k != "exc"]
        r.ob("loop-run", f.qual, len(runs) == 1 and runs[0][1].name == "run_forever", "a started event loop is run %d times" % len(runs), runs[-1][1] if runs else f)
        r.ob("loop-run", f.qual, len(sets) == 1 and sets[0][1].args == (loop,) and (not runs or sets[0][0] < runs[0][0]), "a thread runs another event loop than its daemon's", sets[-1][1] if sets else f)
        for i, e in inits:
            r.ob("loop-run", f.qual, not runs or i < runs[0][0], "a daemon is set up after its event loop ran", e)
            r.ob("loop-run", f.qual, len(inits) == 1, "a daemon is set up %d times at one start" % len(inits), e)
    r.ob("loop-run", f.qual, n > 0, "an event loop is never run", f)


def check(r):
    r.rule("The function handed to websockets.serve is walked for a handler which ends normally, is cancelled, loses its connection or fails: on every path the connection is counted once, under the daemon's lock, before it is served, posted once and closed after it was served, "
           "and handed to the daemon's handler once. The function stopping the event loop reads the count under the lock, cancels every task of its own loop, tells the loop to stop once before waiting, takes exactly as many posts as it read, and takes exactly "
           "that number off the present count, under the lock. Nothing else changes the count or the posts. The daemon's thread runs that loop, once per start, after setting it up.")
    f, all_ = setup(r)
    if not all_:
        raise Anchor("what handles a websocket connection is found")
    users = set()
    for me, st, fns, h, given in all_:
        users.add(connections(r, f, me, st, h, given))
    me, st, fns, h, given = all_[0]
    users.add(stopping(r, f, me, st, fns["inject_stop"]))
    running(r)
    cl = client(r)
    users |= {u for u in cl if u is not None}
    g = r.graph()
    for k, evs in g.evs.items():
        for e in evs:
            post = e.kind == "call" and e.name in ("release", "acquire") and e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "wait_poster"
            if e.kind == "write" and e.name == "wait_count" or post:
                ok = k in users or k.name == "__init__" and not post or r.private(k) and all(c in users for c in g.callers.get(k, ())) or any(k.qual.startswith(u.qual + ".") for u in users)
                r.ob("nothing-else-counts", k.qual, ok, "connections are counted elsewhere, so that stopping waits for others", e)
    r.require("counted-once", "posted-once", "waits-for-all", "uncounted", "loop-run")
