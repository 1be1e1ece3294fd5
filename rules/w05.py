"""W05: each captured value or event lands in exactly one queued frame."""
from vsa.q import *
from vsa.rule import METRICS, Anchor

OP = {"ChannelFrame.add", "ChannelFrame.add_event", "Frame.finalize", "Framer.new_frame", "Channel.emit", "Registry.get_id", "Registry.get_item",
      "ChannelRegistry.get_channel_type"}


def feasible(p):
    """Drop paths contradicting 'a frame is finalized exactly after its finalize ran'."""
    done = set()
    for e in p.events:
        if e.kind == "call" and e.name == "finalize" and e.recv is not None:
            done.add(e.recv)
        if e.kind == "assume" and e.val.k == "attr" and e.val.a[1] == "finalized" and root(e.val).k == "call" and e.pol != (e.val.a[0] in done):
            return False
    return True


def outcome(p, v):
    for _, x, pol, _ in assumes(p):
        if x == v:
            return pol
    return None


def check(r):
    r.rule("On every path through frame building (zero to two elements, every outcome of each addition) each captured element has exactly one successful "
           "addition, under the id and type of its own channel, to a frame which is afterwards finalized once and then queued once; "
           "the returned counts equal the numbers of queued frames and captured elements; pending frames are handed on once each.")
    for n in OP:
        if "." in n:
            c, m = n.split(".")
            r.method(c, m)
    loop = (0, 1, 2) if r.tier == "quick" else (0, 1, 2, 3)
    w = r.walker(opaque=METRICS | OP, loop=loop, while_max=3 if r.tier == "quick" else 4)
    for fn, qn in (("build_data_frames", "queue"), ("build_event_frames", "queue")):
        f = r.method("ChannelFramer", fn)
        Q = V("sym", qn if qn in f.params else f.params[-2])
        data = fn == "build_data_frames"
        evq = None if data else V("attr", V("sym", f.params[2]), "queue")
        many = 0
        counts = {}
        for p in r.paths(f, w):
            if p.kind == "exc" or not feasible(p):
                continue
            cs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call"]
            if data:
                got = [(i, e) for i, e in cs if e.name == "emit" and outcome(p, V("cmp", "is", e.val, NONE)) is False]
                unk = [e for i, e in cs if e.name == "emit" and outcome(p, V("cmp", "is", e.val, NONE)) is None]
                for e in unk:
                    truth = outcome(p, e.val)
                    r.ob("captured", f.qual, False if truth is False else None if truth is None else True,
                         "a captured value is dropped because it is falsy" if truth is False else "whether a value was captured is not decided", e)
                    if truth:
                        got.append((e.i if hasattr(e, "i") else p.events.index(e), e))
            else:
                got = [(i, e) for i, e in cs if e.name in ("get", "get_nowait") and e.recv == evq and e.val.k != "exc"]
            if len(got) >= 2:
                many += 1
            adds = [(i, e) for i, e in cs if e.name in ("add", "add_event") and e.fi is not None and e.fi.cls is not None and e.fi.cls.name == "ChannelFrame"]
            won = [(i, e) for i, e in adds if outcome(p, e.val) is True or (outcome(p, e.val) is None and False)]
            und = [e for i, e in adds if outcome(p, e.val) is None]
            for e in und:
                r.ob("addition-checked", f.qual, False, "whether an element was added is not checked", e)
            if und:
                continue
            if data:
                bad = None
                for j, x in enumerate(p.events):
                    if x.kind == "call" and x.name == "emit" and x.args and x.args[0] != V("sym", f.params[1]):
                        bad = x
                r.ob("emit-time", f.qual, bad is None, "a value is captured for another time than the dispatch's", bad or f)
            for i, g in got:
                if data:
                    mine = [(j, a) for j, a in won if a.arg(2, "chan_val") == g.val]
                else:
                    mine = [(j, a) for j, a in won if a.arg(2, "prev") == V("item", g.val, const(1)) and a.arg(3, "curr") == V("item", g.val, const(2))]
                r.ob("once", f.qual, len(mine) == 1, "a captured %s is put in %d frames" % ("value" if data else "event", len(mine)), g)
                for j, a in mine:
                    ident = a.arg(0, "chan_id")
                    name = V("attr", g.recv, "name") if data else V("item", g.val, const(0))
                    ok = any(e.val == ident and e.name == "get_id" and e.args and e.args[0] == name for _, e in cs[:]) if ident is not None else False
                    r.ob("own-id", f.qual, ok, "an element is added under another id than its channel's: %r" % ident, a)
                    t = a.arg(1, "chan_type")
                    own = data and t == V("attr", g.recv, "type") or any(
                        e.val == t and e.name == "get_channel_type" and e.args and e.args[0] == ident for _, e in cs)
                    if t is not None and t.k == "attr" and t.a[1] == "type":
                        own = own or any(e.val == t.a[0] and e.name == "get_item" and e.args and e.args[0] == ident for _, e in cs)
                    r.ob("own-type", f.qual, bool(own), "an element is added with another type than its channel's: %r" % t, a)
            known = [g.val for _, g in got]
            for j, a in won:
                src = a.arg(2, "chan_val" if data else "prev")
                ok = src is not None and any(mentions(src, k) for k in known)
                r.ob("only-captured", f.qual, ok, "something which was not captured is framed", a)
            puts = [(i, e) for i, e in cs if e.name in ("put", "put_nowait") and e.recv == Q]
            fins = [(i, e) for i, e in cs if e.name == "finalize"]
            for fr in {a.recv for _, a in won}:
                mine = [i for i, a in won if a.recv == fr]
                pt = [i for i, e in puts if e.args and e.args[0] == fr]
                fn_ = [i for i, e in fins if e.recv == fr]
                at = won[[k for k, (i, a) in enumerate(won) if a.recv == fr][-1]][1]
                r.ob("queued-once", f.qual, len(pt) == 1, "a frame holding elements is queued %d times" % len(pt), at)
                r.ob("finalized-once", f.qual, len(fn_) == 1, "a frame holding elements is finalized %d times before it is queued" % len(fn_), at)
                if len(pt) == 1 and fn_:
                    r.ob("finalized-then-queued", f.qual, max(mine) < fn_[0] < pt[0], "a frame is not filled, finalized and then queued in this order", at)
            for i, e in puts:
                r.ob("queued-finalized", f.qual, any(j < i and x.recv == e.args[0] for j, x in fins), "a frame which is not finalized is queued", e)
            if p.val is not None and p.val.k == "tup" and len(p.val.a) == 2:
                a, b = p.val.a
                r.ob("frame-count", f.qual, is_const(a, len(puts)) if is_const(a) else None, "%d frames are queued, %r reported" % (len(puts), a), f)
                ok = is_const(b, len(got)) if is_const(b) else None
                if ok is None and data:
                    c = counts.setdefault((b, sum(1 for _, e in cs if e.name == "emit")), set())
                    c.add(len(got))
                    ok = False if len(c) > 1 else None
                r.ob("element-count", f.qual, ok, "%d elements are captured, %r reported" % (len(got), b), f)
            else:
                r.ob("frame-count", f.qual, False if p.val is None or is_none(p.val) else None, "counts are not reported", f)
        if not many:
            raise Anchor("%s: no path framing two elements" % f.qual)

    # nothing is lost between the event queue and the framer
    f = r.method("EventQueue", "consume")
    qv = V("attr", V("sym", "self"), "queue")
    for p in r.paths(f, r.walker(loop=loop)):
        if p.kind == "exc" or p.val is None:
            continue
        got = [e.val for e in p.events if e.kind == "call" and e.name in ("get", "get_nowait") and e.recv == qv and e.val.k != "exc"]
        items = p.st.store.get(("C", p.val))
        r.ob("consumed", f.qual, tuple(items) == tuple(got) if items is not None else None, "events taken from the queue are not all returned in order", f)
    f = r.method("EventQueue", "enqueue")
    for p in r.paths(f):
        if p.kind == "exc":
            continue
        puts = [e for e in p.events if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv == qv]
        if p.val is not None and is_const(p.val, True):
            want = V("tup", *[V("sym", x) for x in f.params[1:4]])
            r.ob("enqueued", f.qual, len(puts) == 1 and puts[0].args[0] == want, "an event is not queued once, as captured", puts[0] if puts else f)

    # frames collected under the lock are handed on, each once and in order
    f = r.method("ChannelEnvironment", "enqueue_frames")
    src = V("sym", f.params[1])
    fq = V("attr", V("sym", "self"), "frame_queue")
    n = 0
    for p in r.paths(f, r.walker(while_max=4, opaque=METRICS | {"MeteredQueue.put"})):
        if p.kind == "exc":
            continue
        got = [e.val for e in p.events if e.kind == "call" and e.name in ("get", "get_nowait") and e.recv == src and e.val.k != "exc"]
        put = [e.args[0] for e in p.events if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv == fq]
        n += len(got) > 1
        r.ob("handed-on", f.qual, got == put, "pending frames are not put on the frame queue once each and in order", f)
        st = [pol for _, v, pol, _ in assumes(p) if any(e.kind == "call" and e.val == v and e.name == "empty" and e.recv == src for e in p.events)]
        if any(e.kind == "catch" for e in p.events):
            st.append(True)
        r.ob("all-handed-on", f.qual, st[-1] if st else None, "pending frames are left behind", f)
    if not n and not any(o[2] is False for o in r.obs):
        raise Anchor("%s hands no frames on" % f.qual)
    w3 = r.walker(opaque=METRICS | {"ChannelFramer.build_data_frames", "ChannelFramer.build_event_frames", "ChannelEnvironment.enqueue_frames"})
    f = r.method("ChannelEnvironment", "dispatch")
    for p in r.paths(f, w3):
        if p.kind == "exc":
            continue
        b = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("build_data_frames", "build_event_frames")]
        names = sorted(e.name for _, e in b)
        r.ob("dispatches-both", f.qual, names == ["build_data_frames", "build_event_frames"], "a dispatch frames values and events %s" % names, f)
        h = [(i, e.args[0]) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "enqueue_frames"]
        for i, e in b:
            q = e.arg(1 if e.name == "build_data_frames" else 2, "queue")
            direct = q == fq
            ok = direct or sum(1 for j, x in h if x == q and j > i) >= 1
            r.ob("dispatch-queues", f.qual, ok, "frames built by a dispatch are not handed on to the frame queue", e)
        tot = [V("item", e.val, const(0)) for _, e in b]
        if len(tot) == 2:
            r.ob("dispatch-count", f.qual, lin_eq(p.val, V("bin", "+", *tot)) if p.val is not None else False, "a dispatch does not report the frames it queued", f)
    for m, bn in (("dispatch_data", "build_data_frames"), ("dispatch_events", "build_event_frames")):
        f = r.method("ChannelEnvironment", m)
        for p in r.paths(f, w3):
            if p.kind == "exc":
                continue
            b = [e for e in p.events if e.kind == "call" and e.name == bn]
            r.ob("dispatch-result", f.qual, len(b) == 1 and p.val == b[0].val, "the counts of a dispatch are not reported as they are", f)
            if len(b) == 1 and any(v == V("cmp", "is", V("sym", "queue"), NONE) and pol for _, v, pol, _ in assumes(p)):
                q = b[0].arg(1 if m == "dispatch_data" else 2, "queue")
                ok = q == fq or any(e.kind == "call" and e.name == "enqueue_frames" and e.args[0] == q for e in p.events)
                r.ob("dispatch-queues", f.qual, ok, "frames built by a dispatch are not handed on to the frame queue", f)
    r.require("once", "own-id", "own-type", "queued-once", "finalized-once", "finalized-then-queued", "frame-count", "element-count", "handed-on",
              "dispatch-queues", "consumed")
