"""W06: frames of another application or with a bad checksum are never delivered."""
from rules._wire import *

DEC = "vtelem.parsing.encapsulation:decode_frame"


def eq_fact(p, a, b, pol=True):
    for _, v, x, _ in assumes(p):
        if v.k == "cmp" and v.a[0] == "==" and {v.a[1], v.a[2]} == {a, b} and x is pol:
            return True
    return False


def check(r):
    r.rule("Every path on which decoding returns a frame has compared the first value read with the expected id (when there is one) and found it equal, "
           "and has either compared the checksum read with the computed one and found it equal or established that none is left to read; "
           "every client hands every reassembled frame to delivery once, delivery queues and counts exactly the decoded ones and "
           "survives every exception decoding can raise.")
    W = Wire(r)
    df = r.func("vtelem.parsing.encapsulation", "decode_frame")
    parsers = {f.qual for f in r.p.functions if f.module.name == "vtelem.parsing.frames" and f.cls is None and f.parent is None}
    w = W.walker(opaque=parsers)
    want = V("sym", "expected_id")
    if "expected_id" not in df.params:
        raise Anchor("decode_frame has no expected id")
    n = 0

    def crc_reads(p, ops):
        return [o for o in ops if o.k == "r" and any(e.kind == "new" and e.name == "FrameFooter" and mentions(V("tup", *e.args, *e.kw.values()), o.res)
                                                    for e in p.events)]
    got = [p for p in r.paths(df, w) if p.kind != "exc" and not (p.val is None or is_none(p.val))]
    crc_types = {crc_reads(p, W.ops(p))[-1].type for p in got if crc_reads(p, W.ops(p))}
    for p in got:
        n += 1
        ops = W.ops(p)
        reads = [o for o in ops if o.k == "r"]
        if not reads:
            r.ob("id-checked", df.qual, False, "a frame is delivered without being read", df)
            continue
        none = any(v == V("cmp", "is", want, NONE) and pol for _, v, pol, _ in assumes(p))
        if not none:
            exp = [e.val for e in p.calls() if e.name == "get" and e.recv == want] + [V("attr", want, "data")]
            ok = any(eq_fact(p, reads[0].res, x) for x in exp)
            r.ob("id-checked", df.qual, ok, "a frame is delivered although its application id is not known to be the expected one", df)
        crc = crc_reads(p, ops)
        if crc:
            sums = [o.res for o in ops if o.k == "crc32"]
            never = any(v == V("cmp", "is", crc[-1].res, NONE) and pol for _, v, pol, _ in assumes(p))  # a value read is never None
            r.ob("checksum-checked", df.qual, never or any(eq_fact(p, crc[-1].res, s) for s in sums),
                 "a frame is delivered although its checksum is not known to match its bytes", crc[-1].e)
        else:
            can = [o for o in ops if o.k == "can_read"]
            ok = any(o.res == v and pol is False and (o.type in crc_types or W.size(o.type) in {W.size(t) for t in crc_types}) for o in can for _, v, pol, _ in assumes(p))
            rem = any(v.k == "cmp" and any(x.k == "attr" and x.a[1] == "remaining" or x.k == "call" and "remaining" in str(x.a[0]) for x in subterms(v))
                      for _, v, pol, _ in assumes(p))
            r.ob("checksum-read", df.qual, True if ok else (None if rem else False), "a checksum which is present is not looked at", df)
    if not n:
        raise Anchor("decode_frame yields no frame")

    # an environment decodes for whom it was asked to
    ed = r.method("ChannelEnvironment", "decode_frame")
    for p in r.paths(ed, r.walker(opaque={df.qual})):
        if p.kind == "exc":
            continue
        cs = [e for e in p.events if e.kind == "call" and e.fi is df]
        r.ob("decodes-as-asked", ed.qual, len(cs) == 1 and p.val == cs[0].val, "an environment returns %s for a frame" % (show(p.val) if p.val is not None else "nothing"), ed)
        for e in cs:
            got = [e.arg(i, k) for i, k in enumerate(df.params)]
            wants = [V("attr", V("sym", "self"), "channel_registry")] + [V("sym", x) for x in ed.params[1:4]]
            r.ob("decodes-as-asked", ed.qual, len(got) >= 4 and got[1:4] == wants[1:] and (got[0] == wants[0] or got[0] == V("item", V("attr", V("sym", "self"), "registries"), const("channel"))),
                 "a frame is decoded with %s" % ", ".join(show(x) if x is not None else "the default" for x in got), e)

    # the exceptions decoding can raise on received bytes
    w2 = W.walker(assert_fork=True, dict_errors=True)
    raised = {"AssertionError"}
    for p in r.paths(df, w2):
        if p.kind != "exc":
            for e in p.events:
                if e.kind == "new" and e.name == "FrameHeader":
                    t = e.kw.get("type")
                    if t is not None and t.k == "app" and t.a[0] == "enumcast" and any(mentions(t.a[2], o.res) for o in W.ops(p) if o.k == "r"):
                        ok = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == t.a[2] and pol for _, v, pol, _ in assumes(p))
                        if not ok:
                            raised.add("ValueError")
            continue
        last = [e for e in p.events if e.kind == "raise"]
        names = p.exc_name
        if names == "KeyError" and last:
            reads = [o.res for o in W.ops(p) if o.k == "r"]
            miss = [v for _, v, pol, _ in assumes(p) if v.k == "cmp" and v.a[0] == "in" and pol is False]
            if not (miss and any(mentions(miss[-1].a[1], x) for x in reads)):
                continue
        if names:
            raised.add(names)
    for m in ("read_bytes", "read"):
        f = r.method("ByteBuffer", m)
        sf = V("sym", "self")
        for p in r.paths(f, r.walker()):
            if p.kind == "exc":
                continue
            cnt = V("sym", f.params[1]) if m == "read_bytes" else W.size(V("sym", f.params[1]))
            ok = known_ge(p, V("bin", "-", V("bin", "-", V("attr", sf, "size"), V("attr", sf, "pos")), cnt))
            r.ob("short-frame", f.qual, ok, "reading past the end of a frame is not refused", f)
            if not ok:
                raised.add("struct.error")

    # delivery
    f = r.method("TelemetryClient", "handle_frames")
    w3 = r.walker(opaque=METRICS | {DEC}, raises=lambda e: sorted(raised) if e.name == "decode_frame" or e.fi is df else [], loop=(0, 1, 2))
    me = V("sym", "self")
    two = 0
    for p in r.paths(f, w3):
        if p.kind == "exc":
            r.ob("survives", f.qual, False, "%s raised by a malformed frame keeps the following frames from being delivered" % p.exc_name, f)
            continue
        decs = [e for e in p.events if e.kind == "call" and e.fi is df]
        its = [e.val for e in p.events if e.kind == "iter"]
        args = [d.arg(1, "data") for d in decs]
        two += len(args) > 1
        r.ob("each-decoded", f.qual, len(set(args)) == len(args) and all(a is not None and mentions(a, V("sym", f.params[1])) for a in args) and (
            not its or len(args) == len(its)) and not left_early(p), "received frames are not decoded once each", decs[0] if decs else f)
        for d in decs:
            a = d.arg(1, "data")
            r.ob("decoded-whole", f.qual, d.arg(2, "size") == V("app", "len", a), "a frame is not decoded with its own size", d)
            r.ob("expected-id", f.qual, d.arg(3, "expected_id") == V("attr", me, "expected_id"), "a client does not decode with the id it expects", d)
        puts = [e for e in p.events if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv == V("attr", me, "frames")]
        good = [d.val for d in decs if d.val.k != "exc" and any(v == V("cmp", "is", d.val, NONE) and pol is False or v == d.val and pol for _, v, pol, _ in assumes(p))]
        bad = [d.val for d in decs if d.val.k != "exc" and any(v == V("cmp", "is", d.val, NONE) and pol or v == d.val and pol is False for _, v, pol, _ in assumes(p))]
        unk = [d for d in decs if d.val.k != "exc" and d.val not in good and d.val not in bad]
        r.ob("delivered", f.qual, not unk and [e.args[0] for e in puts] == good, "decoded frames are not delivered once each, in order, and only they",
             puts[0] if puts else decs[0] if decs else f)
        r.ob("counted", f.qual, p.val is not None and is_const(p.val, len(good)), "%d frames are delivered, %r counted" % (len(good), p.val), f)
    if not two:
        raise Anchor("handle_frames never decodes two frames")
    for c in [x for x in r.p.classes if x is not r.cls("TelemetryClient") and r.p.is_sub(x, r.cls("TelemetryClient"))]:
        for cf in [r.p.find_method(c, "handle_frames")]:
            r.ob("one-delivery", c.name, cf is f, "%s delivers frames in its own way" % c.name, cf if hasattr(cf, "loc") else f)

    # clients keep the id they are given and hand over everything they receive
    for c in [x for x in r.p.classes if x is not r.cls("TelemetryClient") and r.p.is_sub(x, r.cls("TelemetryClient"))]:
        init = r.p.find_method(c, "__init__")
        if init is None or "app_id" not in init.params or "output_stream" not in init.params:
            continue
        T = r.cls("TelemetryClient")
        for s, st in r.construct(r.walker(inline_pred=lambda fi, st: fi.cls is not None and r.p.is_sub(fi.cls, T) or fi.parent is not None), c):
            r.ob("keeps-id", c.name, st.store.get(("A", s, "expected_id")) == V("sym", "app_id"), "%s does not keep the application id it expects" % c.name, init)
            r.ob("keeps-queue", c.name, st.store.get(("A", s, "frames")) == V("sym", "output_stream"), "%s does not deliver to the queue it was given" % c.name, init)
    hand_over(r)
    r.require("id-checked", "checksum-checked", "delivered", "counted", "keeps-id", "handed-over", "expected-id")


def hand_over(r):
    """Every list of frames the processor cuts is handed to delivery exactly once."""
    pr = r.method("FrameProcessor", "process")
    op = METRICS | {"FrameProcessor.process", "TelemetryClient.handle_frames"}
    for c, entry in (("SocketClient", "run"), ("FileClient", "run")):
        f = r.method(c, entry)
        n = 0
        for p in r.paths(f, r.walker(opaque=op, while_max=2, loop=(0, 1, 2))):
            ps = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is pr]
            hs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "handle_frames"]
            n += len(ps)
            for i, e in ps:
                if e.val.k == "exc":
                    continue
                direct = [h for j, h in hs if h.args and h.args[0] == e.val]
                ext = [x for x in p.events[i:] if x.kind == "call" and x.name in ("extend",) and x.args and x.args[0] == e.val]
                each = [x for x in p.events[i:] if x.kind == "iter" and x.args and x.args[0] == e.val]
                if each and not left_early(p, e.val):
                    kept = [x for x in p.events[i:] if x.kind == "call" and x.name == "append" and x.args and x.args[0] in [y.val for y in each]]
                    if [x.args[0] for x in kept] == [y.val for y in each] and len({x.recv for x in kept}) == 1:
                        ext.append(kept[0])
                elif not each and p.facts.get(e.val) is False and not direct and not [x for x in p.events[i:] if x.kind == "call" and x.name == "extend"]:
                    continue  # nothing was cut
                seen = set()
                for x in p.events[i:]:
                    if x.kind in ("write", "store") and x.val is not None and mentions(x.val, e.val):
                        if not any(mentions(x.val, y) for y in seen) and not any(
                                y.kind == "call" and (y.recv == x.val or y.recv == V("attr", x.recv, x.name)) for y in ext):
                            ext.append(x)
                        seen.add(x.val)
                if p.kind == "exc" and not direct and not ext:
                    continue
                r.ob("handed-over", c, len(direct) + len(ext) == 1, "received frames are handed to delivery %d times" % (len(direct) + len(ext)), e)
                data = e.args[0] if e.args else None
                src = [x for x in p.events[:i] if x.kind == "call" and x.val == data and x.name in ("recv", "read")]
                r.ob("received-processed", c, bool(src), "something other than the bytes received is cut into frames", e)
            rx = [e for e in p.events if e.kind == "call" and e.name in ("recv", "read") and e.val.k != "exc"]
            for x in rx:
                nonempty = any(v == x.val and pol for _, v, pol, _ in assumes(p))
                if nonempty and p.kind != "exc":
                    r.ob("all-processed", c, sum(1 for _, e in ps if e.args and e.args[0] == x.val) == 1, "received bytes are not processed exactly once", x)
        if not n:
            raise Anchor("%s.%s processes nothing" % (c, entry))
    # the file client's backlog: taken from the front, in order, once
    f = r.method("FileClient", "process_raw_frames")
    me = V("sym", "self")
    back = V("attr", me, "to_process")
    for p in r.paths(f, r.walker(opaque=op, loop=(0, 1, 2))):
        if p.kind == "exc":
            continue
        hs = [e for e in p.events if e.kind == "call" and e.name == "handle_frames"]
        pops = [e for e in p.events if e.kind == "call" and e.name in ("pop", "popleft") and e.recv == back]
        given = []
        for h in hs:
            c = p.st.store.get(("C", h.args[0])) if h.args else None
            given += list(c) if c is not None else [h.args[0]]
        if pops:
            front = all(e.name == "popleft" or e.args and is_const(e.args[0], 0) for e in pops)
            r.ob("backlog", "FileClient", front and [e.val for e in pops] == given, "frames read from a file are not delivered once each and in order", pops[0])
        elif hs:
            cut = p.st.store.get(("A", me, "to_process"))
            r.ob("backlog", "FileClient", True if cut is not None else None if given else True, "frames stay in the backlog after being delivered", hs[0])
        if not hs or is_const(p.val) and not cval(p.val):
            continue
        # some of the frames given may not have counted: unless the limit is reached, nothing may be left
        last = max(i for i, e in enumerate(p.events) if e in hs)
        none = any(v.k == "cmp" and v.a[0] == "is" and v.a[2] == NONE and "max_frames" in show(v.a[1]) and pol for _, v, pol, _ in assumes(p))
        done = any(v.k == "cmp" and v.a[0] == "<" and "max_frames" in show(v.a[2]) and not pol for _, v, pol, _ in assumes(p, None, last))
        looked = any(mentions(v, back) for _, v, _, _ in assumes(p, None, last)) or p.val is not None and mentions(p.val, back)
        every = any(e.kind in ("iter", "compiter") and mentions(e.args[0], back) for e in p.events if e.args) and not left_early(p, back)
        r.ob("none-left", "FileClient", none or done or looked or every and not pops, "frames are left behind when some of the limited number taken do not count", f)
    # the websocket client's receive loop
    ws = r.cls("WebsocketClient")
    n = 0
    for fi in r.p.functions:
        top = fi
        while top.parent is not None:
            top = top.parent
        if top.cls is not ws or fi is top:
            continue
        for p in r.paths(fi, r.walker(opaque=op, while_max=2)):
            ps = [e for e in p.events if e.kind == "call" and e.fi is pr]
            for e in ps:
                if e.val.k == "exc" or p.kind == "exc":
                    continue
                n += 1
                hs = [h for h in p.events if h.kind == "call" and h.name == "handle_frames" and h.args and h.args[0] == e.val]
                r.ob("handed-over", "WebsocketClient", len(hs) == 1, "received frames are handed to delivery %d times" % len(hs), e)
    if not n:
        raise Anchor("the websocket client processes nothing")
