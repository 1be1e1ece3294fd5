"""W01: frame headers and footers are read exactly as they are written."""
from rules._wire import *
from rules._wire import _res, _sub

ROLES = {"frame_id": "app_id", "frame_type": "type", "timestamp": "timestamp"}


def check(r):
    r.rule("The ordered (field, primitive type) sequence written while constructing each frame class equals the sequence the header parser reads; "
           "the count and checksum are placed and computed over the same bytes on both sides; ByteBuffer and TypePrimitive write and read with the "
           "same format, order and width.")
    W = Wire(r)
    # which object fills which header field
    fr = r.method("Framer", "new_frame")
    tp = {}
    fi = r.method("Framer", "__init__")
    for p in r.paths(fi, W.w):
        for e in p.events:
            if e.kind == "store" and e.val is not None:
                d = [k for k in ("primitives", "timestamps") if p.st.store.get(("A", V("sym", "self"), k)) == e.recv]
                if d:
                    key = (d[0], cval(e.args[0]) if is_const(e.args[0]) else None)
                    tp.setdefault(key, set()).add(p.st.store.get(("A", e.val, "type"), V("attr", e.val, "type")))
            if e.kind == "call" and e.name == "update" and e.args and e.recv is not None:
                d = [k for k in ("primitives", "timestamps") if p.st.store.get(("A", V("sym", "self"), k)) == e.recv]
                for t in p.st.store.get(("COMP", e.args[0])) or () if d else ():
                    key = (d[0], cval(tup(t, 0)) if is_const(tup(t, 0)) else None)
                    tp.setdefault(key, set()).add(p.st.store.get(("A", tup(t, 1), "type"), V("attr", tup(t, 1), "type")))
    roles = {}
    dec = {}
    hdr = r.cls("FrameHeader")
    pf = r.func("vtelem.parsing.encapsulation", "parse_frame_header")
    nread = 0
    for p in r.paths(pf, W.w):
        if p.kind == "exc":
            continue
        ops = [o for o in W.ops(p) if o.k in ("r", "rb", "advance", "reset", "set_pos")]
        h = [e for e in p.events if e.kind == "new" and e.fn is not None and e.fn.k == "class" and e.fn.a[0] is hdr]
        if not h:
            continue
        nread += 1
        seq = []
        for o in ops:
            fields = [k for k, v in h[-1].kw.items() if mentions(v, o.res)]
            if not fields:
                # the type of a frame of unknown type
                isty = any(a.k == "cmp" and a.a[0] == "in" and a.a[1] == o.res and pol is False for _, a, pol, _ in assumes(p))
                fields = ["type"] if isty else ["?"]
            seq.append((fields[0], o.type))
        dec.setdefault(tuple(seq), []).append(p)
    if not nread:
        raise Anchor("parse_frame_header builds no header")
    r.ob("header-read", pf.qual, len(dec) == 1, "the header is read in different ways on different paths: %s" % list(dec), pf)
    dseq = list(dec)[0]
    if len(dec) == 1:
        r.ob("header-fields", pf.qual, sorted(x for x, _ in dseq) == ["app_id", "size", "timestamp", "type"],
             "the parsed header does not carry each field read once: %s" % (dseq,), pf)

    # encoder: every class the framer makes
    made = 0
    order = set()
    for p in r.paths(fr, W.w):
        for e in p.events:
            if e.kind != "new" or e.fn is None or e.fn.k != "class" or not r.p.is_sub(e.fn.a[0], r.cls("Frame")) or p.kind == "exc":
                continue
            made += 1
            cname = e.fn.a[0].name
            buf = p.st.store.get(("A", e.val, "buffer"))
            count = p.st.store.get(("A", e.val, "count"))
            cprim = p.st.store.get(("I", count, const("primitive"))) or p.st.store.get(("I", count, "primitive")) if count is not None else None
            cpos = p.st.store.get(("I", count, const("position"))) or p.st.store.get(("I", count, "position")) if count is not None else None
            if buf is None or cprim is None:
                r.ob("header-written", cname, None, "the frame's buffer or count is not found", e)
                continue
            order.add(p.st.store.get(("A", buf, "order")))
            ops = [o for o in W.ops(p) if o.buf == buf and o.k in ("w", "a", "advance", "set_pos", "reset", "get_pos")]
            ops = [o for o in ops if not (o.k == "set_pos" and o.type is not None and is_const(o.type, 0))]
            seq, upto, cat = [], [], None
            for o in ops:
                if o.k == "get_pos":
                    if o.res == cpos:
                        cat = len(seq)
                    continue
                role, ty = "?", o.type
                if o.k == "w" and o.prim == cprim:
                    role = "size"
                    before = list(seq)
                elif o.k == "w" and o.prim is not None and o.prim.k == "item" and o.prim.a[0].k == "attr":
                    tab, key = o.prim.a[0].a[1], cval(o.prim.a[1]) if is_const(o.prim.a[1]) else None
                    role = {("primitives", "app_id"): "app_id", ("primitives", None): "type", ("timestamps", None): "timestamp"}.get((tab, key), "?")
                    tys = tp.get((tab, key), set())
                    ty = list(tys)[0] if len(tys) == 1 else None
                seq.append((role, ty))
            if any(x[0] == "?" for x in seq):
                r.ob("header-written", cname, False, "something which is no header field is written to a new frame: %s" % seq, e)
                continue
            r.ob("header-written", cname, tuple(seq) == dseq, "a new frame is written as %s but read as %s" % (seq, list(dseq)), e)
            want = [i for i, x in enumerate(seq) if x[0] == "size"]
            if cat is None and cpos is not None:
                tot = const(0)
                for x in seq[:want[0]] if want else []:
                    tot = V("bin", "+", tot, W.size(x[1])) if x[1] is not None else tot
                ok = lin_eq(W.subst(cpos, ops), tot)
            else:
                ok = bool(want) and cat == want[0]
            r.ob("count-position", cname, ok, "the remembered position of the count is not where the count is written", e)
            # initial count
            v0 = p.st.store.get(("I", count, const("value"))) or p.st.store.get(("I", count, "value"))
            r.ob("count-starts-at-zero", cname, v0 is not None and is_const(v0, 0), "a new frame does not count from zero", e)
    if not made:
        raise Anchor("Framer.new_frame makes no frame")

    # finalize: count, payload, checksum
    fin = r.method("Frame", "finalize")
    me = V("sym", "self")
    for cls in ("ChannelFrame", "MessageFrame"):
        f = r.p.find_method(r.cls(cls), "finalize")
        w = W.walker(types=None)
        ps = [p for p in w.call_value(V("bound", f, me.typed(("c", r.cls(cls)))), [V("sym", "write_crc")])]
        r.note_walk(w, ps, f.qual)
        seen = 0
        for p in ps:
            if p.kind == "exc" or not any(e.kind == "write" and e.name == "finalized" for e in p.events):
                continue
            seen += 1
            buf = V("attr", me, "buffer")
            ops = [o for o in W.ops(p, cls) if o.buf == buf or (o.k == "w" and o.buf == buf)]
            ws = [o for o in ops if o.k in ("w", "a", "advance", "reset", "set_pos")]
            cw = [o for o in ws if o.k == "w" and o.pos is not None and not is_none(o.pos)]
            isc = lambda v, k: v.k == "item" and v.a[0] == V("attr", me, "count") and is_const(v.a[1], k)
            ok = len(cw) == 1 and isc(cw[0].prim, "primitive") and isc(cw[0].pos, "position") and isc(cw[0].val, "value")
            r.ob("count-written", cls, ok, "finalizing does not write the number of elements at the count's position", cw[0].e if cw else fin)
            crcs = [o for o in ws if o.k == "w" and o.prim == V("attr", me, "crc")]
            nocrc = any(v == V("cmp", "is", V("attr", me, "crc"), NONE) and pol for _, v, pol, _ in assumes(p))
            r.ob("crc-written", cls, len(crcs) == (0 if nocrc else 1), "a frame %s checksum is finalized with %d checksums" % (
                "without" if nocrc else "with", len(crcs)), fin)
            for c in crcs:
                r.ob("crc-last", cls, c is ws[-1] and (c.pos is None or is_none(c.pos)), "bytes are written after the checksum", c.e)
                sums = [o for o in ops if o.k == "crc32" and o.res == c.val]
                real = any(v == V("sym", "write_crc") and pol for _, v, pol, _ in assumes(p))
                if real or sums:
                    ok = bool(sums) and not [o for o in ws if sums[0].i < o.i < c.i] and not sums[0].e.args
                    r.ob("crc-covers-frame", cls, ok, "the checksum written does not cover every byte before it", c.e)
                else:
                    r.ob("crc-covers-frame", cls, any(v == V("sym", "write_crc") and not pol for _, v, pol, _ in assumes(p)),
                         "a checksum is not computed although one is wanted", c.e)
        if not seen:
            raise Anchor("%s is never finalized" % cls)

    # decoder: checksum
    df = r.func("vtelem.parsing.encapsulation", "decode_frame")
    parsers = {"vtelem.parsing.frames:" + f.name for f in r.p.functions if f.module.name == "vtelem.parsing.frames" and f.cls is None and f.parent is None}
    crct = W.fixed(V("attr", V("attr", me, "crc"), "type"), "Frame")
    ct = {_res(V("attr", V("attr", me, "crc"), "type"), st.store) for st in W.built("Frame") if not is_none(st.store.get(("A", me, "crc"), NONE))}
    crct = ct.pop() if len(ct) == 1 else None
    w = W.walker(opaque={f.qual for f in r.p.functions if f.module.name == "vtelem.parsing.frames" and f.cls is None and f.parent is None})
    pfr = r.cls("ParsedFrame")
    n = 0
    for p in r.paths(df, w):
        if p.kind == "exc":
            continue
        bufs = [e.val for e in p.events if e.kind == "new" and e.fn is not None and e.fn.k == "class" and e.fn.a[0] is W.bb]
        for b in bufs[:1]:
            order.add(p.st.store.get(("A", b, "order")))
        ops = W.ops(p)
        foot = [o for o in ops if o.k == "r" and any(e.kind == "new" and e.name == "FrameFooter" and mentions(V("tup", *e.args, *e.kw.values()), o.res) for e in p.events)]
        for o in foot:
            n += 1
            r.ob("crc-read", df.qual, o.type == crct, "the checksum is written as %s but read as %s" % (crct, o.type), o.e)
            cks = [x for x in ops if x.k == "crc32" and x.i > o.i]
            for c in cks:
                sz = None
                for e in p.events[:c.i]:
                    if e.kind == "write" and e.name == "size" and e.recv == c.buf:
                        sz = e
                gp = [x for x in ops if x.k == "get_pos" and x.buf == c.buf and sz is not None and mentions(sz.val, x.res)]
                if sz is None:
                    r.ob("crc-check-range", df.qual, False, "the checksum is compared with one that covers the received checksum itself", c.e)
                elif len(gp) == 1:
                    want = V("bin", "-", gp[0].res, W.size(crct)) if gp[0].i > o.i else gp[0].res
                    r.ob("crc-check-range", df.qual, lin_eq(sz.val, want), "the checksum compared is not over all bytes before the received one", c.e)
                else:
                    end = V("bin", "-", sz.val, V("attr", c.buf, "pos"))
                    r.ob("crc-check-range", df.qual, lin_eq(end, V("bin", "-", const(0), W.size(crct))) or (None if sz.val.k == "call" else False), "range of the checksum not understood", c.e)
    if not n:
        raise Anchor("decode_frame reads no footer")
    r.ob("byte-order", "ByteBuffer", len(order) == 1 and None not in order, "frames are written and read with different byte orders: %s" % order, df)

    # the buffer's own read and write agree
    w = r.walker()
    sf = V("sym", "self")
    fm = {}
    for nm, fn in (("write", "struct.pack_into"), ("read", "struct.unpack")):
        f = r.method("ByteBuffer", nm)
        inst = f.params[1]
        for p in r.paths(f, w):
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.name in ("struct.pack_into", "struct.unpack", "struct.unpack_from", "struct.pack"):
                    v = e.args[0]
                    fm.setdefault(nm, set()).add(_sub(v, {V("sym", inst): V("sym", "T")}))
                    if nm == "write" and e.name == "struct.pack_into":
                        r.ob("buffer-write", f.qual, e.args[2] == V("attr", sf, "pos") and e.args[-1] == V("sym", f.params[2]),
                             "a value is not written at the buffer's position", e)
                    if nm == "read" and e.name == "struct.unpack":
                        x = e.args[1]
                        ok = x.k == "app" and x.a[0] == "slice" and x.a[2] == V("attr", sf, "pos") and lin_eq(
                            V("bin", "-", x.a[3], x.a[2]), W.size(V("sym", inst)))
                        r.ob("buffer-read", f.qual, ok, "a value is not read from the bytes at the buffer's position: %r" % x, e)
            if p.kind == "exc":
                continue
            pos = p.st.store.get(("A", sf, "pos"))
            if any(e.kind == "call" and e.name and e.name.startswith("struct.") for e in p.events):
                chomp = any(v == V("sym", "chomp") and pol for _, v, pol, _ in assumes(p))
                want = const(0) if chomp else V("bin", "+", V("attr", sf, "pos"), W.size(V("sym", inst)))
                r.ob("buffer-advances", f.qual, pos is not None and lin_eq(pos, want), "%s leaves the buffer's position at %r" % (nm, pos), f)
                if nm == "write":
                    r.ob("buffer-write-size", f.qual, p.val is not None and lin_eq(p.val, W.size(V("sym", inst))), "a write does not report the bytes it wrote", f)
    buffer_ops(r, W)
    r.ob("same-format", "ByteBuffer", len(fm) == 2 and all(len(x) == 1 for x in fm.values()) and len(set.union(*fm.values())) == 1,
         "values are packed with %s and unpacked with %s" % (fm.get("write"), fm.get("read")), r.method("ByteBuffer", "read"))
    # a primitive writes and reads itself
    wb = r.walker(opaque=METRICS | {"ByteBuffer." + m for m in BUF})
    for nm in ("write", "read"):
        f = r.method("TypePrimitive", nm)
        b = V("sym", f.params[1])
        for p in r.paths(f, wb):
            if p.kind == "exc":
                continue
            es = [e for e in p.events if e.kind == "call" and e.recv == b and e.name in ("read", "write")]
            ok = len(es) == 1 and es[0].name == nm and es[0].arg(0, "inst") == V("attr", sf, "type")
            if nm == "write":
                ok = ok and es[0].arg(1, "data") == V("attr", sf, "data") and p.val == es[0].val
            else:
                ok = ok and p.val == es[0].val
            pos = [e for e in p.events if e.kind == "call" and e.recv == b and e.name == "with_pos"]
            used = any(e.args and e.args[0] == V("sym", "pos") or e.kw.get("pos") == V("sym", "pos") for e in pos)
            nopos = any(v == V("cmp", "is", V("sym", "pos"), NONE) and pol for _, v, pol, _ in assumes(p))
            if not used and not nopos:
                used = any(mentions(V("tup", *e.args, *e.kw.values()), V("sym", "pos")) for e in p.events if e.kind == "call" and e.recv == b)
            r.ob("primitive-" + nm, f.qual, bool(ok and (used or nopos)), "a typed value does not %s itself at the position asked for" % nm, es[0] if es else f)
    # size-prefix: pack of a primitive alone
    f = r.method("TypePrimitive", "buffer")
    for p in r.paths(f, w):
        for e in p.calls():
            if e.name == "struct.pack":
                fv = fm.get("write") and list(fm["write"])[0]
                m = _sub(_sub(fv, {V("sym", "T"): V("attr", sf, "type")}), {V("attr", sf, "order"): V("sym", "order")}) if fv is not None else None
                r.ob("primitive-buffer", f.qual, e.args[0] == m and e.args[1] == V("attr", sf, "data"), "a typed value's own bytes are packed as %r" % e.args[0], e)
    r.require("header-written", "count-written", "crc-written", "crc-covers-frame", "crc-read", "crc-check-range", "same-format", "buffer-advances",
              "primitive-write", "primitive-read", "count-position")


def buffer_ops(r, W):
    """The byte operations everything else is stated in: append, read_bytes, crc32, with_pos."""
    w = r.walker()
    sf = V("sym", "self")
    size, pos, data = (V("attr", sf, k) for k in ("size", "pos", "data"))
    f = r.method("ByteBuffer", "append")
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        n = p.val if p.val is not None else NONE
        given = any(v == V("cmp", "is", V("sym", "data_len"), NONE) and not pol for _, v, pol, _ in assumes(p))
        r.ob("append-size", f.qual, n == (V("sym", "data_len") if given else V("app", "len", V("sym", "other"))),
             "append does not report the number of bytes it was given", f)
        ws = [e.val for e in p.events if e.kind == "write" and e.name == "data" and e.recv == sf]
        d = _prefix(ws[0]) if ws else None
        r.ob("append-bytes", f.qual, d == [(data, size), (V("sym", "other"), n)], "append does not put the given bytes after the buffer's present ones", f)
        atend = any(lin_eq(v, V("bin", "-", size, pos)) and not pol or v.k == "cmp" and v.a[0] == "==" and pol and lin_eq(
            V("bin", "-", v.a[1], v.a[2]), V("bin", "-", size, pos)) for _, v, pol, _ in assumes(p))
        got = p.st.store.get(("A", sf, "size"), size)
        here = V("bin", "+", pos, n)
        none = any(v == V("cmp", "<", size, here) and not pol for _, v, pol, _ in assumes(p))
        ok = lin_eq(got, V("bin", "+", size, n)) or atend and (lin_eq(got, here) or none and got == size)
        r.ob("append-size", f.qual, ok, "append does not grow the buffer's size by what it adds", f)
        empty = any(v == V("cmp", "==", size, const(0)) and pol or v == size and not pol for _, v, pol, _ in assumes(p))
        if atend and not empty:
            r.ob("append-position", f.qual, lin_eq(p.st.store.get(("A", sf, "pos"), pos), V("bin", "+", pos, n)),
                 "a position at the end of the buffer does not move with appended bytes", f)
    f = r.method("ByteBuffer", "read_bytes")
    cnt = V("sym", f.params[1])
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        x = p.val
        ok = x.k == "app" and x.a[0] == "slice" and x.a[1] == data and lin_eq(x.a[2], pos) and lin_eq(x.a[3], V("bin", "+", pos, cnt))
        r.ob("bytes-read", f.qual, ok, "reading bytes does not give the bytes at the buffer's position: %r" % x, f)
        if not any(v == V("sym", "chomp") and pol for _, v, pol, _ in assumes(p)):
            r.ob("bytes-read", f.qual, lin_eq(p.st.store.get(("A", sf, "pos"), pos), V("bin", "+", pos, cnt)), "reading bytes does not move past them", f)
        r.ob("reads-within-size", f.qual, known_ge(p, V("bin", "-", V("bin", "-", size, pos), cnt)) or p.val is None,
             "bytes beyond the buffer's size are read", f)
    f = r.method("ByteBuffer", "crc32")
    sums = set()
    for p in r.paths(f, w):
        for e in p.calls():
            if e.name == "zlib.crc32":
                a = e.args[0]
                part = _prefix(a)
                lim = {size} | ({V("app", "len", data)} if any(v == V("cmp", "is", size, NONE) and pol for _, v, pol, _ in assumes(p)) else set())
                r.ob("crc-bytes", f.qual, part is not None and len(part) == 1 and part[0][0] == data and part[0][1] in lim and p.val == e.val,
                     "a buffer's checksum does not cover exactly its bytes: %r" % a, e)
                sums.add(e.where)
    f = r.method("ByteBuffer", "with_pos")
    for p in r.paths(f, w):
        if p.kind == "unbound":
            continue
        r.ob("position-restored", f.qual, p.st.store.get(("A", sf, "pos"), pos) == pos, "a write at another position leaves the buffer's position moved", f)
    f = r.method("ByteBuffer", "get_pos")
    for p in r.paths(f, w):
        r.ob("position", f.qual, p.val == pos, "get_pos does not give the buffer's position", f)
    r.require("append-size", "append-bytes", "bytes-read", "crc-bytes", "position-restored")


def _prefix(v):
    """[(base, length)] of a concatenation of prefixes, or None."""
    if v.k == "bin" and v.a[0] == "+":
        a, b = _prefix(v.a[1]), _prefix(v.a[2])
        return a + b if a and b else None
    if v.k == "app" and v.a[0] == "slice" and (is_none(v.a[2]) or is_const(v.a[2], 0)):
        return [(v.a[1], v.a[3])]
    return None
