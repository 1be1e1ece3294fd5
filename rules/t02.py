"""T02: a periodic daemon runs its task once per cycle and sleeps what is left of the period."""
from rules._daemon import *
from vsa.walk import St


def check(r):
    r.rule("Daemon.run is walked over two cycles with the state changing freely between reads. Per cycle (from one test for STOPPING to the next): paused, it sleeps the rate once and runs no task; otherwise it runs the task once with the arguments "
           "the daemon was started with, between two readings of the daemon's time, reads the rate anew, counts the task's duration as uptime and cycle time, and sleeps rate - (now - start) when that is positive or else counts one "
           "overrun and tells the overrun handler start, end, rate and the metrics. The initialisation runs once, before the first cycle. It returns only from a test that found STOPPING. set_rate stores a positive rate, under the lock, and nothing else; "
           "the constructor stores task, initialisation, rate and handlers as given; a TelemetryDaemon's task dispatches once, at the daemon's time.")
    r.assume("The duration of the task and the accuracy of sleeping are run-time quantities.")
    S = V("sym", "self")
    F = V("attr", S, "function")
    fn = lambda k: V("item", F, const(k))
    run = r.method("Daemon", "run")
    va, kw = run.node.args.vararg, run.node.args.kwarg
    lock = V("attr", S, "lock")
    rate0 = fn("rate")

    def is_state(v, name):
        return v.k == "cmp" and v.a[0] == "==" and any(x.k == "enum" and x.a[-1] == name for x in v.a[1:] if isinstance(x, V))

    w = r.walker(volatile=("state",), opaque=METRICS | {"TimeEntity.get_time"}, while_max=2, track_reads=True, try_raise=False)
    ncyc = 0
    for p in r.paths(run, w):
        if p.kind == "exc":
            continue
        cycles, cur = [], []
        pre = cur
        for i, e in enumerate(p.events):
            if e.kind == "assume" and is_state(e.val, "STOPPING"):
                cur = [e]
                cycles.append((e.pol, cur))
            else:
                cur.append(e)
        r.ob("ends-when-stopping", run.qual, bool(cycles) and cycles[-1][0] is True and not any(x.kind == "call" and x.fn == fn("task") for x in cycles[-1][1]), "the daemon ends without having been told to stop", run)
        if not cycles:
            continue

        def calls(evs, key):
            return [x for x in evs if x.kind == "call" and x.fn is not None and x.fn == fn(key)]

        def forwarded(e):
            return [show(a) for a in e.args] == (["star(*%s)" % va.arg] if va else []) and (not kw or set(e.kw) == {"**"} and show(e.kw["**"]) == "**%s" % kw.arg)
        # init
        known = None
        for x in pre:
            if x.kind == "assume" and x.val.k == "cmp" and x.val.a[0] == "is" and x.val.a[1] == fn("init") and is_none(x.val.a[2]):
                known = x.pol
            elif x.kind == "assume" and x.val == fn("init"):
                known = not x.pol
        n = len(calls(pre, "init"))
        r.ob("initialised-once", run.qual, n == (0 if known else 1) and known is not None, "the initialisation runs %d times before the first cycle" % n, run)
        for x in calls(pre, "init"):
            r.ob("initialised-once", run.qual, forwarded(x), "the initialisation is called with other arguments than the daemon was started with", x)
        r.ob("initialised-once", run.qual, not any(calls(c, "init") for _, c in cycles), "the initialisation runs again", run)
        r.ob("task-in-cycle", run.qual, not calls(pre, "task"), "the task runs without a test for the daemon being stopped", run)
        for stopping, c in cycles:
            if stopping:
                r.ob("ends-when-stopping", run.qual, not calls(c, "sleep"), "the daemon sleeps although it was told to stop", run)
                continue
            ncyc += 1
            paused = [x.pol for x in c if x.kind == "assume" and is_state(x.val, "PAUSED")]
            task, sleep, over = calls(c, "task"), calls(c, "sleep"), calls(c, "overrun")
            rd = [x for x in c if x.kind == "readitem" and x.recv == F and x.args and is_const(x.args[0], "rate")] or [x for x in c if x.kind == "call" and x.name == "get_rate"]
            r.ob("rate-current", run.qual, bool(rd), "the rate is not read again in a cycle: a change never takes effect", run)
            if paused and paused[0]:
                r.ob("paused", run.qual, not task, "the task runs while the daemon is paused", task[0] if task else run)
                r.ob("paused", run.qual, len(sleep) == 1 and sleep[0].args == (rate0,), "a paused daemon sleeps %s" % ([show(a) for s in sleep for a in s.args] or "not at all"), sleep[0] if sleep else run)
                continue
            r.ob("paused", run.qual, bool(paused), "the task runs without a test for the daemon being paused", run)
            r.ob("task-in-cycle", run.qual, len(task) == 1, "the task runs %d times in one cycle" % len(task), task[-1] if task else run)
            if len(task) != 1:
                continue
            r.ob("task-in-cycle", run.qual, forwarded(task[0]), "the task is called with other arguments than the daemon was started with", task[0])
            ti = c.index(task[0])
            before = [x.val for x in c[:ti] if x.kind == "call" and x.name == "get_time" and x.recv == S]
            after = [x.val for x in c[ti:] if x.kind == "call" and x.name == "get_time" and x.recv == S]
            if not before or not after:
                r.ob("timed", run.qual, False, "the task is not timed", task[0])
                continue
            start, end = before[-1], after[0]
            dur = V("bin", "-", end, start)
            up = [x for x in c if x.kind == "call" and x.name == "increment_metric" and is_const(x.arg(0, "name"), "uptime")]
            cy = [x for x in c if x.kind == "call" and x.name == "set_env_metric" and is_const(x.arg(0, "name"), "cycle_time")]
            r.ob("timed", run.qual, len(up) == 1 and up[0].arg(1, "value") is not None and lin_eq(up[0].arg(1, "value"), dur), "the uptime does not change by the task's duration", up[0] if up else task[0])
            r.ob("timed", run.qual, len(cy) == 1 and cy[0].arg(1, "value") is not None and lin_eq(cy[0].arg(1, "value"), dur), "the cycle time is not the task's duration", cy[0] if cy else task[0])
            left = [V("bin", "-", rate0, V("bin", "-", t, start)) for t in after]
            pos = None
            for x in c[ti:]:
                if x.kind != "assume" or x.val.k != "cmp" or x.val.a[0] not in ("<", "<="):
                    continue
                a, b = x.val.a[1], x.val.a[2]
                d = V("bin", "-", b, a)
                for t in left:
                    if lin_eq(d, t):
                        pos = x.pol
                    elif lin_eq(V("bin", "-", a, b), t):
                        pos = not x.pol
            if len(sleep) > 1:
                r.ob("sleeps-rest", run.qual, False, "sleeps %d times in one cycle" % len(sleep), sleep[-1])
                continue
            for x in sleep:
                a = x.args[0] if x.args else NONE
                exact = any(lin_eq(a, t) for t in left)
                r.ob("sleeps-rest", run.qual, c.index(x) > ti, "sleeps before the task", x)
                r.ob("sleeps-rest", run.qual, exact or (None if a.k == "app" and a.a[0] in ("max", "min") else False), "sleeps %s, not what is left of the period" % show(a), x)
                r.ob("sleeps-rest", run.qual, pos is True or (None if a.k == "app" and a.a[0] == "max" else False), "sleeps a time not known to be positive", x)
            if not sleep:
                r.ob("sleeps-rest", run.qual, pos is False or (None if pos is None else False), "does not sleep although time is left", task[0])
            inc = [x for x in c if x.kind == "call" and x.name == "increment_metric" and is_const(x.arg(0, "name"), "overruns")]
            none = [x.pol for x in c if x.kind == "assume" and x.val.k == "cmp" and x.val.a[0] == "is" and x.val.a[1] == fn("overrun") and is_none(x.val.a[2])] + \
                [not x.pol for x in c if x.kind == "assume" and x.val == fn("overrun")]
            if pos is True:
                r.ob("overruns", run.qual, not inc and not over, "a cycle with time left is an overrun", (inc + over)[0] if inc + over else run)
            elif pos is False:
                gone = p.facts.get(V("cmp", "is", fn("overrun"), NONE)) is True or p.facts.get(fn("overrun")) is False
                want = 0 if none and none[-1] or gone else 1
                r.ob("overruns", run.qual, len(over) == want and (len(inc) == 1 or not want), "an overrun is counted %d times and reported %d times" % (len(inc), len(over)), (over + inc + task)[0])
                for x in over:
                    got = list(x.args)
                    want = [start, end, rate0, fn("metrics_data")]
                    r.ob("overruns", run.qual, got == want and (not inc or c.index(inc[0]) < c.index(x)), "the overrun handler is told %s" % ", ".join(show(a) for a in got), x)
    r.ob("task-in-cycle", run.qual, ncyc > 0, "no cycle", run)
    # the rate
    f = r.method("Daemon", "set_rate")
    given = V("sym", f.params[1])
    for p in r.paths(f, r.walker(opaque=METRICS)):
        if p.kind == "exc":
            continue
        st = [e for e in p.events if e.kind == "store" and e.recv == F and is_const(e.args[0], "rate")]
        pos = None
        for _, v, pol, _e in assumes(p):
            if v.k == "cmp" and v.a[0] in ("<", "<=") and given in v.a[1:] and any(is_const(x, 0, 0.0) for x in v.a[1:]):
                up = v.a[2] == given
                pos = (pol if up and v.a[0] == "<" else not pol if not up and v.a[0] == "<=" else None)
                if pos is None:
                    r.ob("set-rate", f.qual, False, "a rate of zero is treated like %s" % ("a positive one" if up else "a negative one"), _e) if v.a[0] == "<=" and up or v.a[0] == "<" and not up else None
        if st:
            r.ob("set-rate", f.qual, len(st) == 1 and st[0].val == given and pos is True, "the rate becomes %s%s" % (show(st[-1].val), "" if pos else ", which is not known to be positive"), st[-1])
            r.ob("set-rate", f.qual, held(st[-1], lock) is not None, "the rate is changed without the lock", st[-1])
        else:
            r.ob("set-rate", f.qual, pos is False or (None if pos is None else False), "a positive rate is ignored", f)
    f = r.method("Daemon", "get_rate")
    for p in r.paths(f, r.walker(opaque=METRICS)):
        if p.kind != "exc":
            r.ob("get-rate", f.qual, p.val == rate0, "%s is returned as the rate" % show(p.val), f)
    # construction
    C = r.cls("Daemon")
    init = r.method("Daemon", "__init__")
    mro = r.p.mro(C)
    for p in r.call(r.walker(opaque=QUIET, inline_pred=lambda x, s: x.name == "__init__" and x.cls in mro), V("bound", init, S.typed(("c", C))), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        me = S.typed(("c", C))
        t = p.st.store.get(("A", me, "function"))
        vals = {}
        for e in p.events:
            if e.kind == "store" and e.recv in (t, F, V("attr", me, "function")) and is_const(e.args[0]):
                vals[cval(e.args[0])] = e.val
        for key, par in (("task", "task"), ("init", "init"), ("rate", "rate")):
            r.ob("constructed", init.qual, vals.get(key) == V("sym", par), "the daemon's %s is %s" % (key, show(vals[key]) if key in vals else "not set"), init)
        for key, par in (("overrun", "iter_overrun_cb"), ("state_change", "state_change_cb")):
            none = p.facts.get(V("cmp", "is", V("sym", par), NONE))
            if none is False:
                r.ob("constructed", init.qual, vals.get(key) == V("sym", par), "the handler given for '%s' is not used" % key, init)
            elif none is True:
                r.ob("constructed", init.qual, key in vals and vals[key].k in ("func", "bound") or key not in vals and False, "there is no '%s' handler" % key, init)
    # telemetry
    C = r.cls("TelemetryDaemon")
    init = r.method("TelemetryDaemon", "__init__")
    me = S.typed(("c", C))
    base = r.method("Daemon", "__init__")
    for p in r.call(r.walker(opaque=QUIET | {"Daemon.__init__", "TelemetryEnvironment.__init__"}), V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        made = [e for e in p.events if e.kind == "call" and e.fi is base]
        r.ob("telemetry", init.qual, len(made) == 1, "set up as a daemon %d times" % len(made), init)
        for e in made:
            off = 1 if e.args and e.args[0] == me else 0
            pick = lambda n: e.arg(base.params[1:].index(n) + off, n)
            t, rt = pick("task"), pick("rate")
            r.ob("telemetry", init.qual, t is not None and t.k == "bound" and t.a[0].name == "dispatch_now" and rt == V("sym", "rate"), "the periodic task is %s at rate %s" % (show(t) if t is not None else None, show(rt) if rt is not None else None), e)
    f = r.method("ChannelEnvironment", "dispatch_now")
    for p in r.paths(f, r.walker(opaque=QUIET | {"ChannelEnvironment.dispatch", "TimeEntity.get_time"})):
        if p.kind == "exc":
            continue
        ds = [e for e in p.events if e.kind == "call" and e.name == "dispatch" and e.recv == S]
        ts = [e.val for e in p.events if e.kind == "call" and e.name == "get_time" and e.recv == S]
        r.ob("telemetry", f.qual, len(ds) == 1 and ds[0].arg(0, "time") in ts and p.val == ds[0].val, "dispatches %d times" % len(ds), ds[-1] if ds else f)
    r.require("ends-when-stopping", "initialised-once", "task-in-cycle", "paused", "rate-current", "timed", "sleeps-rest", "overruns", "set-rate", "get-rate", "constructed", "telemetry")
