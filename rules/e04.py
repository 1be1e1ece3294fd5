"""E04: a change event is captured exactly when the value changes."""
from rules._daemon import *
from rules.e03 import strip

SELF = V("sym", "self")


def pair(v):
    return v.a if v is not None and v.k == "tup" and len(v.a) == 2 else None


def check(r):
    r.rule("On every path of TypePrimitive.set: with a change callback, a successful set which found the new value different from the old one calls it exactly once, with (old value, old time) as they were before the set and (new value, new time) "
           "as they are stored by it; every other path does not call it. A channel created with an event queue has a callback which enqueues (its own name, previous, current) exactly once, one created without has none; "
           "the event queue puts exactly that without waiting, and consuming hands out every event taken exactly once, in order.")
    r.assume("A queue hands out its elements once, in order (standard library).")
    f = r.method("TypePrimitive", "set")
    data, tm = (V("sym", x) for x in f.params[1:3])
    CB = V("attr", SELF, "changed_cb")
    old, oldt = V("attr", SELF, "data"), V("attr", SELF, "last_set")
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET)):
        if p.kind == "exc":
            continue
        cbs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fn == CB or e.name == "changed_cb" and e.recv == SELF)]
        ok = bool(cval(p.val)) if p.val is not None and is_const(p.val) else None
        has = [not pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == CB and is_none(v.a[2])] + [pol for _, v, pol, _e in assumes(p) if v == CB]
        wr = {e.name: e for e in p.events if e.kind == "write" and e.recv == SELF}
        new = wr["data"].val if "data" in wr else None
        same = None
        for _, v, pol, _e in assumes(p):
            if v.k == "cmp" and v.a[0] == "==" and any(x == old for x in v.a[1:]):
                y = [x for x in v.a[1:] if x != old]
                if y and (y[0] == data or y[0] == new or strip(y[0], p, data)):
                    same = pol
        for i, e in cbs:
            n += 1
            r.ob("only-on-success", f.qual, ok if ok is not None else None, "a set which fails is reported as a change", e)
            r.ob("only-on-change", f.qual, same is False, "a set which leaves the value as it was is reported as a change" if same else "a change is reported without comparing the values", e)
            a, b = pair(e.arg(0, "prev")), pair(e.arg(1, "curr"))
            if a is None or b is None:
                r.ob("carries", f.qual, None, "a change is reported as %s" % show(e.args), e)
            else:
                r.ob("carries-previous", f.qual, a[0] == old and a[1] == oldt, "the previous value is reported as %s" % show(V("tup", *a)), e)
                t = wr["last_set"].val if "last_set" in wr else tm
                r.ob("carries-current", f.qual, (b[0] == new or strip(b[0], p, data)) and b[1] == t, "the new value is reported as %s" % show(V("tup", *b)), e)
        r.ob("once", f.qual, len(cbs) <= 1, "a change is reported %d times" % len(cbs), cbs[-1][1] if cbs else f)
        if ok and not cbs and (not has or has[-1]):
            r.ob("reported", f.qual, same is True if has or same is not None else None, "a change is not reported", f)
        elif ok and has and not has[-1]:
            r.ob("reported", f.qual, True, "", f)
    r.ob("reaches", f.qual, n > 0, "no set is ever reported as a change", f)

    # the callback of a channel
    init = r.method("Channel", "__init__")
    enq = r.method("EventQueue", "enqueue")
    me = SELF.typed(("c", r.cls("Channel")))
    EQ = V("sym", "event_queue", ty=("c", r.cls("EventQueue")))
    nm = V("sym", init.params[1])
    fam = {x for x in r.p.mro(r.cls("Channel")) if not isinstance(x, str)}
    w = r.walker(opaque=QUIET | {"EventQueue.enqueue"})
    tracked = 0
    for p in r.call(w, V("bound", init, me), [V("sym", x) if x != "event_queue" else EQ for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        cb = p.st.store.get(("A", me, "changed_cb"))
        none = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == EQ and is_none(v.a[2])] + [not pol for _, v, pol, _e in assumes(p) if v == EQ]
        if none and none[-1]:
            r.ob("untracked-silent", init.qual, cb is None or is_none(cb), "a channel which is not tracked has a change callback", init)
            continue
        if cb is None or is_none(cb):
            r.ob("tracked", init.qual, False, "a tracked channel has no change callback", init)
            continue
        if cb.k not in ("func", "bound"):
            r.ob("tracked", init.qual, None, "callback %s" % show(cb), init)
            continue
        tracked += 1
        a, b = V("sym", "prev_event"), V("sym", "curr_event")
        q = cb.a[0]
        for x in r.call(r.walker(opaque=QUIET | {"EventQueue.enqueue"}), cb, [a, b], st=p.st.fork()):
            if x.kind == "exc" and x.exc_name == "AssertionError":
                continue
            es = [e for e in x.events if e.kind == "call" and (e.fi is enq or e.name == "enqueue")]
            r.ob("enqueued-once", q.qual, len(es) == 1, "a change is queued %d times" % len(es), es[-1] if es else q)
            for e in es:
                own = nm if (V("attr", me, "name") is None or True) else None
                k = e.arg(0, enq.params[1])
                r.ob("own-name", q.qual, k == nm or k == p.st.store.get(("A", me, "name")) and k is not None or k == V("attr", me, "name"), "a change is queued under the name %s" % show(k), e)
                r.ob("enqueues-change", q.qual, e.arg(1, enq.params[2]) == a and e.arg(2, enq.params[3]) == b, "a change is queued as %s" % show(e.args), e)
                r.ob("own-queue", q.qual, e.recv == EQ, "a change is queued elsewhere", e)
    if not tracked:
        r.ob("tracked", init.qual, None, "no tracked channel", init)
    # the queue
    for p in r.paths(enq, r.walker(raises=lambda e: ["Full"] if e.kind == "call" and e.name == "put_nowait" else [])):
        ps = [e for e in p.events if e.kind == "call" and e.name in ("put", "put_nowait") and e.fi is None or e.kind == "call" and e.name in ("append", "appendleft")]
        if p.kind == "exc":
            r.ob("full-tolerated", enq.qual, p.exc_name not in ("Full", "queue.Full"), "a full event queue makes a set raise", enq)
            continue
        r.ob("queued-once", enq.qual, len(ps) == 1, "an event is put %d times" % len(ps), ps[-1] if ps else enq)
        for e in ps:
            v = e.arg(0, "item")
            r.ob("queued-event", enq.qual, v is not None and v.k == "tup" and v.a == tuple(V("sym", x) for x in enq.params[1:4]) or (None if v is not None and v.k != "tup" else False), "what is queued is %s" % show(v), e)
            blk = e.arg(1, "block")
            r.ob("not-waiting", enq.qual, e.name != "put" or blk is not None and is_const(blk) and not cval(blk), "queuing an event may wait", e)
    con = r.method("EventQueue", "consume")
    for p in r.paths(con, r.walker(while_max=2, loop=(0, 1, 2), raises=lambda e: ["Empty"] if e.kind == "call" and e.name == "get_nowait" else [])):
        if p.kind == "exc":
            r.ob("consume-ends", con.qual, p.exc_name not in ("Empty", "queue.Empty"), "consuming an empty queue raises", con)
            continue
        gets = [e.val for e in p.events if e.kind == "call" and e.name in ("get", "get_nowait") and e.fi is None and e.val.k != "exc"]
        out = p.st.store.get(("C", p.val)) if p.val is not None else None
        if out is None:
            r.ob("consumes-all", con.qual, None, "result %s" % show(p.val), con)
            continue
        r.ob("consumes-all", con.qual, list(out) == gets, "events taken are %s, events handed out %s" % (show(V("tup", *gets)), show(V("tup", *out))), con)
    r.require("carries-previous", "carries-current", "only-on-change", "reported", "enqueued-once", "own-name", "queued-event", "not-waiting", "consumes-all")
