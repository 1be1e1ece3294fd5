"""Q01: published counts match what happened."""
from rules._daemon import *
from rules.s01 import handle_of
from vsa.walk import St

ONE, MINUS = const(1), const(-1)
COUNT = METRICS | {"DaemonBase.increment_metric", "DaemonBase.decrement_metric", "DaemonBase.reset_metric", "ChannelEnvironment.metric_add", "ChannelEnvironment.set_metric", "ChannelEnvironment.add_metric"}


def label(v):
    """The name of a counter: the constant, or the last constant part of a formatted or joined one."""
    while not is_const(v) and v.k in ("fstr", "bin") and v.a and isinstance(v.a[-1], V):
        v = v.a[-1]
    return str(cval(v)) if is_const(v) else "?"


def changes(p, name, recv=None):
    """[(index, event, amount)] of the changes to the counter `name`; amount None: not understood."""
    out = []
    for i, e in enumerate(p.events):
        if e.kind != "call" or e.name not in ("increment_metric", "decrement_metric", "metric_add"):
            continue
        if recv is not None and e.recv != recv:
            continue
        n = e.arg(0, "name")
        if n is None or label(n).split(".")[-1] != name:
            continue
        amount = e.arg(1, "data" if e.name == "metric_add" else "value")
        if amount is None:
            amount = ONE if e.name != "metric_add" else None
        if e.name == "decrement_metric" and amount is not None:
            amount = const(-cval(amount)) if is_const(amount) else None
        out.append((i, e, amount))
    return out


def net(ch):
    """The sum of constant changes; None when one is not constant."""
    t = 0
    for _, _, a in ch:
        if a is None or not is_const(a):
            return None
        t += cval(a)
    return t


def same(r, kind, construct, ch, want, msg, at):
    n = net(ch)
    r.ob(kind, construct, None if n is None else n == want, msg % ("?" if n is None else n, want), ch[-1][1] if ch else at)


def queue_counts(r):
    for m, sign, total in (("put", 1, "total_enqueued"), ("get", -1, "total_dequeued")):
        f = r.method("MeteredQueue", m)
        S = V("sym", "self")
        env = V("attr", S, "env")
        ok = 0
        for p in r.paths(f, r.walker(opaque=COUNT, raises=lambda e: ["queue.Full" if m == "put" else "queue.Empty", "ValueError"] if e.fi is None and e.recv == S and e.name in ("put", "get") else ())):
            real = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.recv == S and e.name in (m, m + "_nowait", "_" + m)]
            done = [(i, e) for i, e in real if e.val is None or e.val.k != "exc"]
            if p.kind == "exc" and not real:
                continue
            for n, s in (("elements", sign), (total, 1)):
                ch = changes(p, n)
                same(r, "queue-count", f.qual, ch, s * len(done), "the queue's '" + n + "' changes by %s where %s elements were " + ("enqueued" if sign > 0 else "dequeued"), f)
                if done and sign > 0 and n == "elements":
                    up = [i for i, _, a in ch if a == ONE]
                    r.ob("counted-before-visible", f.qual, bool(up) and up[0] < done[0][0], "an element can be dequeued (and counted) before it is counted as enqueued", done[0][1])
                if done and sign < 0:
                    r.ob("counted-after-taken", f.qual, all(i > done[0][0] for i, _, a in ch), "an element is counted as dequeued before it is", done[0][1])
            if p.kind == "exc":
                continue
            ok += 1
            r.ob("queue-forwards", f.qual, len(done) == 1, "%d elements pass for one %s" % (len(done), m), f)
            for _, e in done:
                names = ([] if m == "get" else ["item"]) + ["block", "timeout"]
                for k, nm in enumerate(f.params[1:]):
                    want = V("sym", nm)
                    got = e.arg(k, names[k]) if k < len(names) else None
                    if e.name.endswith("_nowait") and k >= len(names) - 2:
                        got = want if False else got
                    r.ob("queue-forwards", f.qual, got == want, "'%s' of the call is %s" % (nm, show(got) if got is not None else "not passed on"), e)
            if m == "get":
                r.ob("queue-forwards", f.qual, bool(done) and p.val == done[-1][1].val, "%s is returned instead of the element" % show(p.val), f)
        r.ob("queue-forwards", f.qual, ok > 0, "never returns", f)
    init = r.method("MeteredQueue", "__init__")
    want = {}
    for p in r.paths(init, r.walker(opaque=COUNT)):
        if p.kind == "exc":
            continue
        for n in ("elements", "total_enqueued", "total_dequeued"):
            adds = [e for e in p.events if e.kind == "call" and e.name in ("add_metric", "set_metric") and e.arg(0, "name") is not None and label(e.arg(0, "name")).split(".")[-1] == n]
            zero = False
            for e in adds:
                i = e.arg(3, "initial") if e.name == "add_metric" else e.arg(1, "data")
                i = tup(i, 0) if i is not None and i.k == "tup" else i
                zero = zero or i is not None and is_const(i, 0, 0.0) or e.name == "add_metric" and (i is None or is_none(i))
            r.ob("registered", init.qual, len(adds) >= 1 and zero, "the queue's '%s' does not start as a metric of zero" % n, adds[0] if adds else init)


def daemon_counts(r):
    C = r.cls("DaemonBase")
    S = V("sym", "self")
    table = V("item", V("attr", S, "function"), const("metrics_data"))
    lock = V("attr", S, "lock")
    for m, sign in (("increment_metric", 1), ("decrement_metric", -1), ("reset_metric", 0)):
        f = r.method("DaemonBase", m)
        name, amt = V("sym", f.params[1]), V("sym", f.params[2])
        for p in r.paths(f, r.walker(opaque=(METRICS - {"DaemonBase.increment_metric", "DaemonBase.decrement_metric", "DaemonBase.reset_metric"}) | {"DaemonBase.set_env_metric"})):
            if p.kind == "exc":
                continue
            st = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.args and e.args[0] == name]
            pub = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("set_env_metric",) and e.arg(0, "name") == name]
            r.ob("daemon-count", f.qual, len(st) == 1 and st[0][1].recv == table, "the count is stored %d times" % len(st), st[-1][1] if st else f)
            if len(st) != 1:
                continue
            v = st[0][1].val
            old = V("item", table, name)
            want = amt if sign == 0 else V("bin", "+" if sign > 0 else "-", old, amt)
            r.ob("daemon-count", f.qual, v == want or sign != 0 and lin_eq(v, want) or (None if mentions(v, amt) and v.k == "app" else False), "%s is stored" % show(v), st[0][1])
            r.ob("daemon-published", f.qual, len(pub) == 1 and pub[0][1].arg(1, "value") in (v, old), "%s is published" % (show(pub[0][1].arg(1, "value")) if pub else "nothing"), pub[0][1] if pub else f)
            if pub:
                r.ob("published-in-order", f.qual, held(st[0][1], lock) is not None and held(pub[0][1], lock) == held(st[0][1], lock), "a count is changed and published in different critical sections: an older count may be published last", pub[0][1])
    # what is counted
    for m, name in (("start", "starts"), ("pause", "pauses"), ("unpause", "unpauses")):
        f = r.method("DaemonBase", m)
        for p in r.paths(f, r.walker(opaque=COUNT | {"DaemonBase.set_state", "DaemonBase.reset_metric"}, volatile=("state",))):
            if p.kind == "exc":
                continue
            yes = p.val is not None and is_const(p.val, True)
            if p.val is None or not is_const(p.val):
                continue
            same(r, "operation-count", f.qual, changes(p, name, S), 1 if yes else 0, "'" + name + "' changes by %s, expected %s", f)
    f = r.method("DaemonBase", "stop")
    for p in r.paths(f, r.walker(opaque=COUNT | {"DaemonBase.begin_stop"}, volatile=("state",))):
        if p.kind == "exc" or p.val is None or not is_const(p.val):
            continue
        n = [net(changes(p, x, S)) for x in ("stops", "errors")]
        # formatted or chosen names
        tot = [e for e in p.events if e.kind == "call" and e.name == "increment_metric" and e.recv == S]
        r.ob("operation-count", f.qual, len(tot) == (1 if cval(p.val) else 0), "%d counts for one stop" % len(tot), tot[-1] if tot else f)
        for i, e in enumerate(p.events):
            if e in tot and is_const(e.arg(0, "name")):
                idle = [pol for _, v, pol, _e in assumes(p, i) if v.k == "cmp" and v.a[0] == "==" and any(x.k == "enum" and x.a[-1] == "IDLE" for x in v.a[1:] if isinstance(x, V))]
                other = [v for _, v, pol, _e in assumes(p, i) if v.k == "cmp" and v.a[0] == "==" and any(x.k == "enum" for x in v.a[1:] if isinstance(x, V))]
                ended = idle[-1] if idle else None if not other and any(True for _ in assumes(p, i)) else False
                r.ob("operation-count", f.qual, None if ended is None else cval(e.arg(0, "name")) == ("stops" if ended else "errors"), "a stop which %s is counted as '%s'" % ("ended the daemon" if ended else "is not known to have ended the daemon", cval(e.arg(0, "name"))), e)
    h = r.method("DaemonBase", "run_harness")
    for p in r.paths(h, r.walker(opaque=COUNT | {"DaemonBase.set_state", "DaemonBase.run"}, raises=lambda e: ["KeyboardInterrupt", "ValueError"] if e.name == "run" else ())):
        if any(e.kind == "raise" and e.name in ("AssertionError",) for e in p.events):
            continue
        same(r, "operation-count", h.qual, changes(p, "count", S), 1, "'count' changes by %s in a run, expected %s", h)


def env_counts(r):
    S = V("sym", "self")
    f = r.method("ChannelEnvironment", "add_channel")
    for p in r.paths(f, r.walker(opaque=COUNT, assert_fork=True)):
        if p.kind == "exc":
            r.ob("channel-count", f.qual, not changes(p, "channel_count", S), "a refused channel is counted", f)
            continue
        same(r, "channel-count", f.qual, changes(p, "channel_count", S), 1, "'channel_count' changes by %s, expected %s", f)
    f = r.method("ChannelEnvironment", "dispatch")
    for p in r.paths(f, r.walker(opaque=COUNT | {"ChannelEnvironment.dispatch_data", "ChannelEnvironment.dispatch_events", "ChannelEnvironment.enqueue_frames"}, while_max=1)):
        if p.kind == "exc":
            continue
        same(r, "dispatch-count", f.qual, changes(p, "dispatch_count", S), 1, "'dispatch_count' changes by %s, expected %s", f)
    for m, build, name in (("dispatch_events", "build_event_frames", "events_captured"), ("dispatch_data", "build_data_frames", "emits_captured")):
        f = r.method("ChannelEnvironment", m)
        for p in r.paths(f, r.walker(opaque=COUNT | {"ChannelFramer.build_event_frames", "ChannelFramer.build_data_frames", "ChannelEnvironment.enqueue_frames"})):
            if p.kind == "exc":
                continue
            b = [e for e in p.events if e.kind == "call" and e.name == build]
            ch = changes(p, name, S)
            good = len(b) == 1 and len(ch) == 1 and ch[0][2] in (V("item", b[0].val, ONE), V("elem", b[0].val, ONE))
            r.ob("captured-count", f.qual, good or (None if len(b) == 1 and len(ch) == 1 and ch[0][2] is not None and mentions(ch[0][2], b[0].val) and ch[0][2] not in (V("item", b[0].val, const(0)),) and ch[0][2].k != "item" else False),
                 "'%s' changes by %s" % (name, ", ".join(show(a) if a is not None else "?" for _, _, a in ch) or "nothing"), ch[-1][1] if ch else f)
    f = r.method("ChannelEnvironment", "register_base_metrics")
    st0 = St()
    st0.store[("A", S, "metrics")] = NONE
    for p in r.paths(f, r.walker(opaque=COUNT | {"ChannelEnvironment.add_channel"}), st=st0):
        if p.kind == "exc":
            continue
        base = {}
        for e in p.events:
            if e.kind == "call" and e.name in ("add_metric", "set_metric") and is_const(e.arg(0, "name")):
                base.setdefault(cval(e.arg(0, "name")), []).append(e)
        for n in ("channel_count", "events_captured", "emits_captured", "dispatch_count"):
            r.ob("registered", f.qual, any(e.name == "add_metric" for e in base.get(n, ())), "'%s' is not a metric" % n, f)
        es = [e for e in base.get("channel_count", ()) if e.name == "set_metric"]
        r.ob("registered", f.qual, len(es) == 1 and any(x.kind == "call" and x.name == "count" and x.val == es[0].arg(1, "data") for x in p.events) or bool(es) and mentions(es[0].arg(1, "data"), V("attr", V("attr", S, "channel_registry"), "curr_id")),
             "the channel count does not start at the number of registered channels", es[-1] if es else f)
    f = r.method("ChannelEnvironment", "metric_add")
    name, data = V("sym", f.params[1]), V("sym", f.params[2])
    for p in r.paths(f, r.walker(opaque={"Registry.get_item", "TypePrimitive.add", "TypePrimitive.set"})):
        if p.kind == "exc":
            continue
        adds = [e for e in p.events if e.kind == "call" and e.name in ("add", "set") and e.fi is not None]
        known = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "in" and v.a[1] == name]
        if known and known[-1]:
            r.ob("added", f.qual, len(adds) == 1 and adds[0].name == "add" and adds[0].arg(0, "data") == data or (None if len(adds) == 1 and adds[0].name == "set" and adds[0].arg(0, "data").k not in ("sym", "const") else False),
                 "%s is added to the metric" % (show(adds[0].arg(0, "data")) if adds else "nothing"), adds[0] if adds else f)
        elif not adds:
            none = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2])]
            r.ob("added", f.qual, True if False in known or True in none else None, "a metric's change is dropped", f)


def state_counts(r):
    for m, table in (("entering", {"enter_attempts": 1, "enter_successes": "r"}), ("leaving", {"exit_attempts": 1, "exit_successes": "r"}), ("run", {"iterations": 1})):
        f = r.method("State", m)
        S = V("sym", "self")
        for p in r.paths(f, r.walker(opaque={"ChannelGroup.data", "ChannelGroup.read", "ChannelGroup.write"})):
            if p.kind == "exc":
                continue
            counted(r, f, p, V("attr", S, "metrics"), {k: (p.val if v == "r" else v) for k, v in table.items()})
    f = r.method("StateMachine", "run")
    S = V("sym", "self")
    for p in r.paths(f, r.walker(opaque={"ChannelGroup.data", "ChannelGroup.read", "ChannelGroup.write", "State.entering", "State.leaving", "State.run"})):
        if p.kind == "exc":
            continue
        t = {"enter_fails": 0, "exit_fails": 0, "transitions": 0, "iterations": 1}
        res = {e.val: e.name for e in p.events if e.kind == "call" and e.name in ("entering", "leaving")}
        for _, v, pol, _e in assumes(p):
            if v in res and not pol:
                t["enter_fails" if res[v] == "entering" else "exit_fails"] = 1
        moved = [e for e in p.events if e.kind == "write" and e.name == "current_state" and e.recv == S]
        t["transitions"] = 1 if moved and not t["enter_fails"] and not t["exit_fails"] else 0
        counted(r, f, p, V("attr", S, "metrics"), t)


def counted(r, f, p, group, table):
    none = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == group and is_none(v.a[2])]
    if not none or none[-1]:
        r.ob("state-count", f.qual, True if none else False, "whether there are metrics is not asked", f)
        return
    data = [e.val for e in p.events if e.kind == "call" and e.name in ("data", "read") and e.recv == group]
    for name, want in table.items():
        st = [e for e in p.events if e.kind == "store" and e.recv in data and is_const(e.args[0], name)]
        if isinstance(want, int):
            wants = [const(want), const(bool(want)), V("app", "int", const(bool(want)))]
        else:
            wants = [want, V("app", "int", want), const(int(p.facts[want])) if want in p.facts else None]
            if is_const(want):
                wants += [const(int(bool(cval(want))))]
        if not st:
            ok = isinstance(want, int) and want == 0 or not isinstance(want, int) and (is_const(want) and not cval(want) or p.facts.get(want) is False)
            r.ob("state-count", f.qual, ok, "'%s' is not counted" % name, f)
            continue
        v = st[-1].val
        if len(st) != 1:
            r.ob("state-count", f.qual, None, "'%s' changes %d times" % (name, len(st)), st[-1])
            continue
        olds = [V("item", d, const(name)) for d in data]
        diff = None
        if v.k == "bin" and v.a[0] == "+":
            diff = v.a[2] if v.a[1] in olds else v.a[1] if v.a[2] in olds else None
        if v in olds:
            diff = const(0)
        def norm(x):
            while x is not None and x.k == "app" and x.a[0] in ("int", "bool") and len(x.a) == 2:
                x = x.a[1]
            if x is not None and is_const(x) and isinstance(cval(x), (bool, int)):
                return int(cval(x))
            if x is not None and x in p.facts:
                return int(p.facts[x])
            return x
        w = norm(want if isinstance(want, V) else const(want))
        if diff is None and not any(mentions(v, o) for o in olds):
            r.ob("state-count", f.qual, False, "'%s' becomes %s whatever it was" % (name, show(v)), st[-1])
            continue
        r.ob("state-count", f.qual, None if diff is None else norm(diff) == w, "'%s' changes by %s, expected %s" % (name, show(diff) if diff is not None else show(v), w if not isinstance(w, V) else show(w)), st[-1])


def stream_counts(r):
    S = V("sym", "self")
    lock = V("attr", S, "lock")
    for m, name, table in (("add_stream", "stream_count", "streams"), ("add_queue", "queue_count", "queues")):
        f = r.method("StreamWriter", m)
        for p in r.paths(f, r.walker(opaque=COUNT)):
            if p.kind == "exc":
                continue
            ch = changes(p, name, S)
            same(r, "stream-count", f.qual, ch, 1, "'" + name + "' changes by %s, expected %s", f)
            put = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv == V("attr", S, table)]
            if m == "add_stream" and ch and put:
                i, e, _ = ch[0]
                r.ob("counted-before-visible", f.qual, i < put[0][0] or bool(held(e, lock)) and held(e, lock) == held(put[0][1], lock), "a stream can fail and be counted as removed before it is counted as added: the count would go below zero, which no metric can hold", e)
    for m, name, table in (("remove_stream", "stream_count", "streams"), ("remove_queue", "queue_count", "queues")):
        f = r.method("StreamWriter", m)
        for p in r.paths(f, r.walker(opaque=COUNT)):
            if p.kind == "exc":
                continue
            gone = [e for e in p.events if (e.kind == "del" or e.kind == "call" and e.name in ("pop", "__delitem__")) and e.recv == V("attr", S, table)]
            pops = [e for e in gone if e.kind == "call" and len(e.args) > 1]
            if pops:
                hit = p.facts.get(V("cmp", "is", pops[0].val, NONE))
                n = 0 if hit is True else 1 if hit is False else None
            else:
                n = len(gone)
            if n is None or any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and mentions(v.a[1], V("attr", S, table)) for _, v, pol, _e in assumes(p)) and n:
                continue            # a table of streams or queues holds no None
            same(r, "stream-count", f.qual, changes(p, name, S), -n, "'" + name + "' changes by %s, expected %s", f)


def command_counts(r):
    C = r.cls("CommandQueueDaemon")
    init = r.method("CommandQueueDaemon", "__init__")
    me = V("sym", "self").typed(("c", C))
    mro = r.p.mro(C)
    w = r.walker(opaque=QUIET, inline_pred=lambda f, s: f.name == "__init__" and f.cls in mro)
    hs = {}
    for p in r.call(w, V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        h = p.st.store.get(("A", me, "handle"))
        if h is not None and h.k in ("func", "bound"):
            st = p.st.fork()
            for k in [k for k in st.store if k[0] == "A" and k[1] == me]:
                del st.store[k]
            hs.setdefault(h.a[0], (h, st))
    for f, (h, st) in hs.items():
        elem = V("sym", f.params[-1])
        for p in r.call(r.walker(opaque=QUIET | COUNT, try_raise=True), h, [elem], st=st.fork()):
            if p.kind == "exc":
                continue
            same(r, "command-count", f.qual, changes(p, "command_count", me), 1, "'command_count' changes by %s for one command, expected %s", f)
            runs = [e for e in p.events if e.kind == "call" and e.fi is None and e.args and e.recv is None and any(x.k == "obj" for x in e.args) and e.node is not None and len(e.args) == 1 and mentions(e.fn, V("attr", me, "handlers")) if e.fn is not None]
            rej = net(changes(p, "rejected_count", me))
            its = [e for e in p.events if e.kind == "iter" and e.args and mentions(e.args[0], V("attr", me, "handlers"))]
            out = [e for e in p.events if e.kind == "call" and e.name == "increment_metric" and e.recv == me and label(e.arg(0, "name")) not in ("command_count", "rejected_count")]
            r.ob("command-count", f.qual, None if rej is None else rej == 0 if its else rej == 1 or (None if not its and rej == 0 and any(mentions(v, V("attr", me, "handlers")) for v in p.facts) else False), "a command which %s is counted as rejected %s times" % ("was handled" if its else "no handler takes", rej), f)
            r.ob("command-count", f.qual, len(out) == len(its), "%d outcomes are counted for %d handlers run" % (len(out), len(its)), out[-1] if out else f)
            for e in out:
                n = label(e.arg(0, "name"))
                r.ob("command-count", f.qual, n in ("success_count", "failure_count") if is_const(e.arg(0, "name")) else None, "an outcome is counted as '%s'" % n, e)


def tcp_counts(r):
    f = r.method("TcpTelemetryHandler", "handle")
    for p in r.paths(f, r.walker(opaque=COUNT | QUIET, raises=lambda e: ["ValueError"] if e.name == "acquire" else ())):
        ch = changes(p, "clients")
        pre = p.kind == "exc" and not any(e.kind == "call" and e.name == "acquire" for e in p.events)
        if pre:
            continue
        same(r, "client-count", f.qual, ch, 0, "'clients' changes by %s over a connection, expected %s", f)
        up = [i for i, _, a in ch if a == ONE]
        wait = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "acquire" or e.kind == "acquire" and "sem" in show(e.recv or e.val or NONE)]
        if p.kind != "exc":
            r.ob("client-count", f.qual, len(up) == 1 and ch[0][2] == ONE, "a client is never counted", f)


def check(r):
    r.rule("Every site that counts is walked on all its paths and the change of the counter compared with what the path did: MeteredQueue.put/get change 'elements' and the totals exactly when the element passes (not when it is refused), "
           "counting an element before it is visible; a daemon's counter changes by exactly the amount and is published in the critical section of the change; starts, stops, errors, pauses, unpauses and runs; channels added, dispatches, "
           "captured events and emits (second result of the frame builder); state and state machine attempts, successes, failures and transitions; streams and queues added and removed; commands and their outcomes; tcp clients.")
    queue_counts(r)
    daemon_counts(r)
    env_counts(r)
    state_counts(r)
    stream_counts(r)
    command_counts(r)
    tcp_counts(r)
    r.require("queue-count", "counted-before-visible", "daemon-count", "daemon-published", "published-in-order", "operation-count", "channel-count", "dispatch-count", "captured-count", "registered", "added", "state-count",
              "stream-count", "command-count", "client-count")
