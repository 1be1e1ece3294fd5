"""D02: a daemon's thread always ends idle and stopping waits for it."""
from rules._daemon import *


def stop_item(v):
    return v is not None and v.k == "item" and v.a[1] in ("inject_stop", const("inject_stop")) and v.a[0].k == "attr" and v.a[0].a[1] == "function"


def is_stop_call(e):
    return e.kind == "call" and stop_item(e.fn)


def check(r):
    r.rule("Every path of the thread's function, with the work ending normally or by any exception, calls the work at most once and ends with the state written "
           "idle, after the work; starting makes one thread for that function and starts it once, after the state says so, and on no other path; stopping "
           "returns true only on paths which wrote the stopping state, then ran the registered stop action, then joined the thread with a time limit; the "
           "managed uses (booted, paused) undo what they did on every way out of the block, and only that.")
    L = Life(r)
    work = r.method("DaemonBase", "run")
    entries = L.thread_entries()
    nrun = 0
    exits = set()
    for h in entries:
        w = r.walker(opaque=QUIET | {f.qual for f in [work] + [c.methods["run"] for c in L.family if "run" in c.methods]},
                     raises=lambda e: ["Exception", "KeyboardInterrupt", "?"] if e.name == "run" or (e.fi is None and e.name in ("<item>", "state_change")) else [])
        for p in r.paths(h, w):
            ws = [(i, L.member(e.val), e) for i, e in L.writes(p, w)]
            runs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "run" and e.recv is not None]
            nrun += len(runs)
            how = "returning"
            for i, e in runs:
                how = "raising" if e.val is not None and e.val.k == "exc" else "returning"
                exits.add(how)
                r.ob("runs-while-running", h.qual, [m for j, m, _ in ws if j < i][-1:] == ["RUNNING"], "the work runs while the state is %s" % [m for j, m, _ in ws if j < i][-1:], e)
            r.ob("runs-once", h.qual, len(runs) <= 1, "the work is run %d times" % len(runs), h)
            last = ws[-1] if ws else None
            ok = last is not None and last[1] == "IDLE" and all(i < last[0] for i, _ in runs)
            r.ob("ends-idle", h.qual, ok, "with the work %s the thread ends with the state %s" % (how, last[1] if last else "unchanged"), last[2] if last else h)
    r.ob("runs-work", "thread", nrun > 0 and exits == {"raising", "returning"}, "the daemon's thread does not run its work", work)
    # start
    w = r.walker(opaque=QUIET)
    f = L.ops["start"]
    for p in r.paths(f, w):
        th = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.name.split(".")[-1] == "Thread"]
        st = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "start" and e.recv is not None and e.fi is None]
        ws = [(i, e) for i, e in L.writes(p, w)]
        if p.kind == "exc":
            continue
        good = p.val is not None and is_const(p.val) and bool(cval(p.val))
        if not good:
            r.ob("starts-only-on-success", f.qual, not st, "a thread is started although start reports failure", f)
            continue
        r.ob("one-thread", f.qual, len(th) == 1 and len(st) == 1 and st[0][1].recv == th[0][1].val, "start makes %d threads and starts %d" % (len(th), len(st)), f)
        if len(th) == 1 and st:
            r.ob("started-after-state", f.qual, bool(ws) and ws[-1][0] < st[0][0], "the thread is started before the state says so", st[0][1])
            kept = [i for i, e in enumerate(p.events) if e.kind == "write" and e.name == "thread" and e.val == th[0][1].val]
            r.ob("thread-kept", f.qual, bool(kept) and kept[0] < st[0][0] and len([e for e in p.events if e.kind == "write" and e.name == "thread"]) == 1,
                 "the thread cannot be waited for", th[0][1])
            ev = th[0][1]
            pa = ev.kw.get("args")
            pk = ev.kw.get("kwargs")
            r.ob("work-arguments", f.qual, pa is not None and pk is not None and pa.k != "const" and pk.k != "const", "the arguments given to start do not reach the work", ev)
    # stop
    f = L.ops["stop"]
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET)):
        ws = [(i, e) for i, e in L.writes(p, w) if L.member(e.val) == "STOPPING"]
        join = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "join" and e.fi is None and e.recv == V("attr", L.me, "thread")]
        calls = [(i, e) for i, e in enumerate(p.events) if is_stop_call(e)]
        if p.kind == "exc":
            continue
        good = p.val is not None and is_const(p.val) and bool(cval(p.val))
        if not good:
            r.ob("stop-failure-harmless", f.qual, not join and not calls, "stop reports failure but signalled or waited for the thread", f)
            continue
        n += 1
        r.ob("waits", f.qual, len(ws) == 1 and len(join) == 1 and ws[0][0] < join[0][0], "stop reports success without having waited for the thread", f)
        if join:
            e = join[0][1]
            t = e.arg(0, "timeout")
            ok = t is not None and not is_none(t)
            if ok and t.k == "sym":
                d = f.node.args
                names = [a.arg for a in d.args]
                dv = None
                if t.a[0] in names:
                    k = names.index(t.a[0]) - (len(names) - len(d.defaults))
                    dv = ([v for _, v in r.walker().eval_in(d.defaults[k], f)] or [None])[0] if k >= 0 else None
                ok = dv is not None and is_const(dv) and not is_none(dv)
            r.ob("time-limit", f.qual, ok, "the wait for the thread has no time limit", e)
            r.ob("signals-first", f.qual, all(i < join[0][0] for i, _ in calls), "the thread is signalled after it is waited for", e)
        absent = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] in ("inject_stop", const("inject_stop")) and pol is False for _, v, pol, _ in assumes(p)) or \
            any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and mentions(v.a[1], const("inject_stop")) for _, v, pol, _ in assumes(p)) or \
            any(not pol and v.k in ("item", "call", "app") and mentions(v, const("inject_stop")) for _, v, pol, _ in assumes(p))
        r.ob("signals-once", f.qual, absent or len(calls) == 1 or (None if not calls and any(e.kind == "call" and e.fn is not None and mentions(e.fn, const("inject_stop")) for e in p.events) else False),
             "the stop action is run %d times" % len(calls), f)
        for i, e in calls:
            r.ob("signals-after-state", f.qual, bool(ws) and ws[0][0] < i, "the stop action runs before the state says so", e)
    r.ob("stop-succeeds", f.qual, n > 0, "stop never reports success", f)
    # managed uses
    for name, op, undo in (("booted", "start", "stop"), ("paused", "pause", "unpause")):
        f = r.method("DaemonBase", name)
        w = r.walker(opaque=QUIET | {"DaemonBase." + x for x in ("start", "stop", "pause", "unpause")}, assert_fork=True)
        y = 0
        for p in r.paths(f, w):
            o = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == op]
            u = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == undo]
            ys = [i for i, e in enumerate(p.events) if e.kind == "yield"]
            if not any(e.kind == "assume" and e.pol and e.val.k == "call" and any(p.events[i].val == e.val for i in o) for e in p.events):
                r.ob("managed-undoes-own", name, not u, "%s is called although %s did not succeed: what another user of the daemon did is undone" % (undo, op), p.events[u[0]] if u else f)
            if ys:
                y += 1
                okd = any(e.kind == "assume" and e.pol and e.val.k == "call" and any(x.kind == "call" and x.val == e.val and x.name == op for x in p.events) for e in p.events[:ys[0]])
                r.ob("managed-starts", name, len(o) == 1 and o[0] < ys[0] and okd, "the block is entered although %s did not succeed" % op, f)
                r.ob("managed-ends", name, len(u) == 1 and u[0] > ys[-1], "%s is not called exactly once after the block" % undo, f)
        r.ob("managed-used", name, y > 0, "%s never enters its block" % name, f)
    r.require("ends-idle", "runs-once", "one-thread", "waits", "signals-once", "managed-ends")
