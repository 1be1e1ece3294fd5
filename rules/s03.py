"""S03: readers of a telemetry stream are told when it ends."""
from rules._daemon import *
from rules.s02 import known, removed_at, truth
from vsa.walk import St

SELF = V("sym", "self")
PUT = ("put", "put_nowait")


def marker(e):
    return e.kind == "call" and e.name in PUT and e.recv is not None and e.args and is_none(e.args[0])


def check(r):
    r.rule("Walking StreamWriter.remove_queue, QueueClientManager.close_clients, FileClient.run and the actions SocketClient registers for stopping and closing, with the stopper raising anything: removing a queue puts the marker on that queue exactly once, after it left the "
           "writer's table and blocking, unless told not to or the queue is unknown; closing the clients of a manager removes every queue it registered and keeps the marker; a file client puts the marker on its output queue exactly once, as the last thing it puts, when the read of its file "
           "gives nothing, and at no other time; stopping a socket client closes it and closing it puts the marker on its output queue exactly once however the stopper ends; what decoded frames are put never is the marker; the websocket reader ends when it takes the marker.")
    r.assume("Closing a socket object does not raise. A client stopped or limited before the end of its file is not at the end of its source and puts no marker.")
    # 1. the writer
    rem = r.method("StreamWriter", "remove_queue")
    tab = V("attr", SELF, "queues")
    x, flag = V("sym", rem.params[1]), V("sym", rem.params[2])
    for p in r.paths(rem, r.walker(opaque=QUIET)):
        if p.kind == "exc":
            continue
        kn = known(p, {tab}, x)
        if kn == "never":
            continue
        puts = [(i, e) for i, e in enumerate(p.events) if marker(e)]
        outs = [(i, e) for i, e in enumerate(p.events) if removed_at(e, x) == tab]
        want = p.facts.get(flag)
        if kn is not True or want is False:
            r.ob("removal-quiet", rem.qual, not puts, "the marker is put although %s" % ("told not to" if kn else "no queue was removed"), puts[0][1] if puts else rem)
            continue
        if want is None:
            r.ob("removal-marks", rem.qual, False, "the marker %s whatever was asked" % ("is put" if puts else "is not put"), rem)
            continue
        vals = {V("item", tab, x)} | {e.val for e in p.events if e.kind == "call" and e.name in ("get", "pop") and e.recv == tab}
        r.ob("removal-marks", rem.qual, len(puts) == 1 and puts[0][1].recv in vals and puts[0][1].name == "put" and len(puts[0][1].args) == 1 and not puts[0][1].kw, "the marker is put %d times on the removed queue" % len(puts), puts[-1][1] if puts else rem)
        for i, e in puts:
            r.ob("removal-marks-after", rem.qual, any(j < i for j, _ in outs), "the marker is put while the queue is still registered", e)
    # 2. closing the clients
    f = r.method("QueueClientManager", "close_clients")
    active = V("attr", SELF, "active_client_queues")
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET | {rem.qual})):
        if p.kind == "exc":
            continue
        its = [e for e in p.events if e.kind in ("iter", "compiter") and e.args and mentions(e.args[0], active)]
        cs = [e for e in p.events if e.kind == "call" and e.fi is rem]
        r.ob("clients-told", f.qual, not its or not left_early(p), "not every client's queue is removed", f)
        seen = []
        for e in its:
            if e.val in seen:
                continue
            seen.append(e.val)
            mine = [c for c in cs if c.arg(0, rem.params[1]) == e.val]
            n += 1
            r.ob("clients-told", f.qual, len(mine) == 1 and (mine[0].arg(1, rem.params[2]) in (None, TRUE)), "a client's queue is removed %d times%s" % (len(mine), ", without the marker" if mine else ""), mine[0] if mine else e)
    r.ob("clients-told", f.qual, n > 0, "no client's queue is removed", f)
    # 3. file client
    run = r.method("FileClient", "run")
    out = V("attr", SELF, "frames")
    hf = r.method("TelemetryClient", "handle_frames")
    w = r.walker(opaque=QUIET | {hf.qual, "FrameProcessor.process"}, volatile=("state",))
    ends = 0
    for p in r.paths(run, w):
        if p.kind == "exc":
            continue
        reads = {e.val: i for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.name in ("read", "readinto", "read1")}
        eof = [i for i, v, pol, _e in assumes(p) if empty_read(v, pol, reads)]
        puts = [(i, e) for i, e in enumerate(p.events) if marker(e)]
        for i, e in puts:
            r.ob("file-end", run.qual, e.recv == out and e.name == "put" and len(e.args) == 1 and not e.kw, "the marker is put on %s" % show(e.recv), e)
        if eof:
            ends += 1
            r.ob("file-end", run.qual, len(puts) == 1, "at the end of the file the marker is put %d times" % len(puts), puts[-1][1] if puts else run)
            for i, e in puts:
                late = [y for y in p.events[i:] if y.kind == "call" and (y.fi is hf or y.name in PUT and y.recv == out and y is not e)]
                r.ob("file-end-last", run.qual, not late, "frames are put after the marker", late[0] if late else e)
                more = [j for v, j in reads.items() if j > i]
                r.ob("file-end-last", run.qual, not more, "the file is read again after its end", e)
        else:
            r.ob("file-end", run.qual, not puts, "the marker is put before the end of the file", puts[0][1] if puts else run)
    r.ob("file-end", run.qual, ends > 0, "the end of the file is never noticed", run)
    # frames put are never the marker
    for p in r.paths(hf, r.walker(opaque=QUIET | {"vtelem.frame.channel:decode_frame"} | {x.qual for x in r.p.functions if x.name == "decode_frame"})):
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.name in PUT and e.recv == out and e.args:
                a = e.args[0]
                none = is_none(a)
                sure = any(j < i and v.k == "cmp" and v.a[0] == "is" and v.a[1] == a and is_none(v.a[2]) and not pol or j < i and v == a and pol for j, v, pol, _e in assumes(p))
                r.ob("frames-not-marker", hf.qual, not none and (sure or (True if a.k == "obj" else False)), "an undecoded frame is put as if it were the end marker", e)
    # 4. socket clients
    socket_client(r)
    # 5. the websocket reader
    reader(r)
    r.require("removal-marks", "removal-marks-after", "clients-told", "file-end", "file-end-last", "frames-not-marker", "close-marks", "stop-closes", "reader-ends")


def empty_read(v, pol, reads):
    """The path takes a read of the file to have given nothing."""
    if v in reads:
        return not pol
    if v.k == "cmp" and v.a[0] == "==":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if a in reads and is_const(b) and not cval(b):
                return pol
            if a.k in ("len", "app") and any(x in reads for x in subterms(a)) and is_const(b, 0):
                return pol
    if v.k == "cmp" and v.a[0] == "<" and any(x in reads for x in subterms(v)):
        if v.a[2].k == "const" and cval(v.a[2]) == 1:
            return pol
        if v.a[1].k == "const" and cval(v.a[1]) == 0:
            return not pol
    return False


def socket_client(r):
    C = r.cls("SocketClient")
    init = r.method("SocketClient", "__init__")
    me = SELF.typed(("c", C))
    mro = r.p.mro(C)
    stopper, out = V("sym", init.params[2]), V("sym", init.params[3])
    n = 0
    for p in r.call(r.walker(opaque=QUIET, inline_pred=lambda f, s: f.name == "__init__" and f.cls in mro), V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        d = p.st.store.get(("A", me, "function"))
        acts = {k: p.st.store.get(("I", d, const(k))) for k in ("close", "inject_stop")} if d is not None else {}
        for k, kind in (("close", "close-marks"), ("inject_stop", "stop-closes")):
            h = acts.get(k)
            if h is None or h.k not in ("func", "bound"):
                r.ob(kind, init.qual, None if h is not None else False, "a socket client has no '%s' action" % k, init)
                continue
            n += 1
            raises = lambda e: ["OSError", "?"] if e.fi is None and (e.fn == stopper or e.recv == stopper) else ()
            for q in r.call(r.walker(opaque=QUIET, raises=raises), h, [], st=p.st.fork()):
                puts = [e for e in q.events if marker(e)]
                mine = [e for e in puts if (e.recv == out or e.recv == V("attr", me, "frames")) and e.name == "put" and len(e.args) == 1 and not e.kw]
                how = "" if q.kind != "exc" else " when the stopper raises"
                r.ob(kind, "SocketClient %s" % k, len(mine) == 1 and len(puts) == 1, "the marker is put %d times%s" % (len(puts), how), puts[-1] if puts else h.a[0])
                shut = [e for e in q.events if e.kind == "call" and e.name == "close" and e.fi is None]
                r.ob(kind, "SocketClient %s" % k, bool(shut), "the socket is not closed%s" % how, h.a[0])
                st = [e for e in q.events if e.kind == "call" and e.fi is None and e.fn == stopper]
                if k == "inject_stop":
                    r.ob("stop-closes", "SocketClient %s" % k, len(st) == 1, "the stopper is called %d times" % len(st), h.a[0])
                    if q.kind == "exc":
                        r.ob("stop-closes", "SocketClient %s" % k, q.exc_name != "OSError", "stopping a client whose peer is gone raises", h.a[0])
    # nobody replaces them
    g = r.graph()
    w = r.walker()
    for fn, evs in g.evs.items():
        for e in evs:
            if e.kind == "store" and e.args and is_const(e.args[0]) and cval(e.args[0]) in ("close", "inject_stop") and e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "function":
                t = w.ty(e.recv.a[0], St())
                top = fn
                while top.parent is not None:
                    top = top.parent
                c = t[1] if t and t[0] == "c" and not isinstance(t[1], str) else top.cls
                if c is not None and r.p.is_sub(c, C):
                    r.ob("stop-closes", "%s['%s']" % (c.name, cval(e.args[0])), top is init or None, "another '%s' action" % cval(e.args[0]), e)


def reader(r):
    get = r.func("vtelem.stream", "queue_get")
    n = 0
    for f in r.p.functions:
        if not f.is_async or f.module.name != "vtelem.daemon.websocket_telemetry":
            continue
        for p in r.paths(f, r.walker(opaque=QUIET | {get.qual, "QueueClientManager.add_client_queue", "StreamWriter.remove_queue", "Frame.with_size_header"})):
            gets = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fi is get or e.fi is None and e.name in ("get", "get_nowait") and e.recv is not None and e.recv.k == "item") and e.val.k != "exc"]
            for i, e in gets:
                none = [(j, pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == e.val and is_none(v.a[2])] + [(j, not pol) for j, v, pol, _e in assumes(p) if v == e.val]
                if not none:
                    if p.kind != "exc":
                        r.ob("reader-ends", f.qual, False, "what was taken is not checked for the end marker", e)
                    continue
                n += 1
                if none[0][1]:
                    later = [y for j, y in gets if j > i] + [y for y in p.events[i:] if y.kind == "call" and y.name == "send"]
                    r.ob("reader-ends", f.qual, not later, "the reader goes on after the end marker", later[0] if later else e)
    r.ob("reader-ends", "websocket telemetry", n > 0, "no reader takes frames from its queue", "")
