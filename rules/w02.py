"""W02: frame payloads are read exactly as they are written."""
import ast

from rules._wire import *

FRAMES = "vtelem.parsing.frames"


def role_of(v, st, d=0):
    """(element, path of names) at which v is stored in the parsed result."""
    for k, x in st.store.items():
        if k[0] == "I" and x == v and isinstance(k[1], V) and k[1].k == "obj" and k[1].a[0] == "dict":
            key = cval(k[2]) if isinstance(k[2], V) and is_const(k[2]) else (k[2] if isinstance(k[2], str) else None)
            up = role_of(k[1], st, d + 1) if d < 4 else None
            if up is None or not up[1]:
                return (k[1], (key,)) if up is None else (up[0], (key,))
            return up[0], up[1] + (key,)
    return (v, ()) if any(k[0] == "C" and isinstance(x, tuple) and v in x for k, x in st.store.items()) else None


def check(r):
    r.rule("For each frame kind the sequence of (type, role) the encoder writes on a successful path equals the sequence its parser reads for two "
           "elements, each value read being stored under the element and name it was written for; message fields follow one shared table.")
    W = Wire(r)
    me = V("sym", "self")
    count = V("attr", me, "count")
    cv = V("item", count, const("value"))

    def counted(p):
        return p.st.store.get(("I", count, const("value"))) or p.st.store.get(("I", count, "value")) or cv

    # ---- channel frames: encoder
    enc = {}
    for m, kind in (("add", "data"), ("add_event", "event")):
        f = r.method("ChannelFrame", m)
        cid, ct, rest = V("sym", f.params[1]), V("sym", f.params[2]), [V("sym", x) for x in f.params[3:]]
        for p in r.paths(f, W.w):
            if p.kind == "exc" or not is_const(p.val, True):
                continue
            ops = [o for o in W.ops(p, "ChannelFrame") if o.k in ("w", "a", "advance", "reset", "set_pos", "r", "rb")]
            main = [o for o in ops if o.buf == V("attr", me, "buffer")]
            elem = [o for o in ops if o.buf == V("attr", me, "elem_buffer")]
            ok = len(main) == 1 and main[0].k == "w" and main[0].val == cid and len(main) + len(elem) == len(ops)
            r.ob("id-written", f.qual, ok, "an element's id is not written exactly once, in the frame's id section: %s" % main, main[0].e if main else f)
            if not ok:
                continue
            seq = []
            for o in elem:
                role = "?"
                if o.k == "w" and o.val is not None:
                    if kind == "data" and o.val == rest[0]:
                        role = ("value",)
                    elif kind == "event":
                        for side, s in zip(("previous", "current"), rest):
                            if o.val == V("item", s, const(0)):
                                role = (side, "value")
                            elif mentions(o.val, V("item", s, const(1))) and not any(mentions(o.val, V("item", q, const(1))) for q in rest if q != s):
                                role = (side, "time")
                seq.append(("T" if o.type == ct else o.type, role))
            bad = [x for x in seq if x[1] == "?"]
            r.ob("element-written", f.qual, not bad, "a part of an element is written from something else: %s" % elem, f)
            r.ob("element-counted", f.qual, lin_eq(counted(p), V("bin", "+", cv, const(1))), "an added element does not count as one", f)
            if not bad:
                enc.setdefault(kind, set()).add((main[0].type, tuple(seq)))
        if kind not in enc and not any(o[2] is False for o in r.obs):
            raise Anchor("%s never adds an element" % f.qual)
        r.ob("one-layout", f.qual, len(enc.get(kind, ())) <= 1, "elements are written in different layouts", f)

    # ---- finalize: ids then elements
    f = r.p.find_method(r.cls("ChannelFrame"), "finalize")
    for p in r.call(W.w, V("bound", f, me.typed(("c", r.cls("ChannelFrame")))), [V("sym", "write_crc")]):
        if p.kind == "exc" or not any(e.kind == "write" and e.name == "finalized" for e in p.events):
            continue
        ap = [o for o in W.ops(p, "ChannelFrame") if o.k == "a"]
        eb = V("attr", me, "elem_buffer")
        d, n = V("attr", eb, "data"), V("attr", eb, "size")
        ok = len(ap) == 1 and ap[0].buf == V("attr", me, "buffer")
        v, ln = (ap[0].e.arg(0, "other"), ap[0].e.arg(1, "data_len")) if ok else (None, None)
        ok = ok and (v == d and ln == n or v.k == "app" and v.a[0] in ("slice", "bytes") and v.a[1] == d and (len(v.a) < 4 or v.a[3] == n and (
            is_none(v.a[2]) or is_const(v.a[2], 0))) and (ln is None or is_none(ln) or ln == n))
        r.ob("elements-appended", "ChannelFrame", bool(ok), "the elements are not put behind the ids exactly once, with their exact size, at finalize",
             ap[0].e if ap else f)

    # ---- parsers
    for kind, fn in (("data", "parse_data_frame"), ("event", "parse_event_frame")):
        f = r.func(FRAMES, fn)
        hs = V("attr", V("sym", f.params[0]), "size")
        reg = V("sym", f.params[2])
        got = 0
        for p in r.paths(f, W.w):
            if p.kind == "exc":
                continue
            srcs = {k.a[1] for k in p.facts if k.k == "app" and k.a[0] == "ranged"}
            r.ob("element-count-read", f.qual, bool(srcs) and all(x == V("app", "range", hs) or x == V("app", "range", const(0), hs) for x in srcs),
                 "the parser does not read as many elements as the header says", f)
            ops = [o for o in W.ops(p) if o.k in ("r", "rb", "advance", "reset", "set_pos")]
            els, seq, bad = [], [], None
            for o in ops:
                ro = role_of(o.res, p.st)
                if ro is None:
                    bad = o
                    break
                if ro[0] not in els:
                    els.append(ro[0])
                seq.append((els.index(ro[0]), ro[1], o))
            if bad is not None:
                r.ob("element-read", f.qual, False, "a value which is read is not kept with an element", bad.e)
                continue
            if len(els) != 2 or kind not in enc or len(enc[kind]) != 1:
                continue
            got += 1
            idt, es = list(enc[kind])[0]
            idv = {}
            shape = []
            for n, role, o in seq:
                t = o.type
                if role == ("id",):
                    idv[n] = o.res
                elif t is not None and t.k == "attr" and t.a[1] == "type":
                    own = mentions(t, idv[n]) if n in idv else False
                    oth = any(mentions(t, v) for m, v in idv.items() if m != n)
                    t = "T" if own and not oth and mentions(t, reg) else t
                shape.append((n, role, t))
            want = [(n, ("id",), idt) for n in (0, 1)] + [(n, role, t) for n in (0, 1) for t, role in es]
            r.ob("payload-layout", kind, shape == want, "a %s frame is written as %s but read as %s" % (
                kind, [(a, b) for _, a, b in want], [(a, b) for _, a, b in shape]), f)
            for n, e in enumerate(els):
                ch = p.st.store.get(("I", e, const("channel"))) or p.st.store.get(("I", e, "channel"))
                r.ob("attributed", kind, ch is not None and n in idv and mentions(ch, idv[n]) and mentions(ch, reg),
                     "an element is not attributed to the channel its id names", f)
            # result lists the elements in frame order
            lists = [x for k, x in p.st.store.items() if k[0] == "C" and isinstance(x, tuple) and set(els) <= set(x)]
            r.ob("element-order", kind, bool(lists) and all([x for x in l if x in els] == els for l in lists), "elements are not listed in the order of the frame", f)
        if kind in enc and not got and not any(o[2] is False for o in r.obs):
            raise Anchor("%s: no path reading two elements understood" % f.qual)

    # ---- messages: encoder
    f = r.method("MessageFrame", "initialize")
    fd, fr = V("sym", f.params[1]), V("sym", f.params[2])
    menc = set()
    for p in r.paths(f, W.w):
        if p.kind == "exc":
            continue
        ops = [o for o in W.ops(p, "MessageFrame") if o.k in ("w", "a", "advance", "set_pos", "reset")]
        ty = {}
        for _, v, pol, _ in assumes(p):
            if v.k == "cmp" and v.a[0] == "==" and pol:
                for a, b in (v.a[1:], v.a[:0:-1]):
                    if a.k == "attr" and a.a[1] == "type":
                        ty[a.a[0]] = b
        seq = []
        for o in ops:
            if o.k == "w" and o.prim is not None and o.prim.k == "item" and o.prim.a[0] == fd and is_const(o.prim.a[1]):
                seq.append((cval(o.prim.a[1]), ty.get(o.prim)))
            elif o.k == "a" and o.e.arg(0, "other") == fr and (o.e.arg(1, "data_len") or NONE) in (NONE, V("app", "len", fr)):
                seq.append(("fragment_bytes", None))
            else:
                seq.append(("?", None))
        r.ob("message-written", f.qual, all(o.buf == V("attr", me, "buffer") for o in ops) and not any(s[0] == "?" for s in seq),
             "a message frame is written with something which is no message field: %s" % ops, f)
        n = W.subst(counted(p), ops)
        r.ob("message-counted", f.qual, lin_eq(n, V("bin", "+", cv, V("app", "len", fr))), "a message frame does not count its fragment's bytes", f)
        menc.add(tuple(seq))
    # the types come from the prepared fields
    f = r.method("MessageFrame", "create_fields")
    made = {}
    for p in r.paths(f, W.w):
        if p.kind == "exc":
            continue
        made = {}
        for k, x in p.st.store.items():
            if k[0] == "I" and k[1] == p.val:
                made[cval(k[2]) if isinstance(k[2], V) else k[2]] = p.st.store.get(("A", x, "type"))
        # a given value goes to the field of its name
        vs = V("sym", f.params[0]) if f.params else None
        for e in p.calls():
            if e.name == "set" and e.args and e.args[0].k == "item" and e.args[0].a[0] == vs:
                nm = [k[2] for k, x in p.st.store.items() if k[0] == "I" and k[1] == p.val and x == e.recv]
                r.ob("field-value", f.qual, len(nm) == 1 and (nm[0] == e.args[0].a[1] or nm[0] == cval(e.args[0].a[1])),
                     "a message field is given another field's value", e)
        for s in menc:
            for nm, t in s:
                if nm not in ("?", "fragment_bytes"):
                    r.ob("field-type", nm, nm in made and (t is None or made[nm] == t), "message field %s is prepared as %s" % (nm, made.get(nm)), f)
    # ---- messages: parser
    f = r.func(FRAMES, "parse_message_frame")
    hs = V("attr", V("sym", f.params[0]), "size")
    mdec = set()
    for p in r.paths(f, W.w):
        if p.kind == "exc":
            continue
        seq = []
        for o in [o for o in W.ops(p) if o.k in ("r", "rb", "advance", "reset", "set_pos")]:
            nm = [k[2] for k, x in p.st.store.items() if k[0] == "I" and k[1] == p.val and x == o.res]
            nm = [cval(x) if isinstance(x, V) else x for x in nm]
            if o.k == "rb":
                r.ob("fragment-size", f.qual, o.e.arg(0, "count") == hs, "the fragment read is not as long as the header says", o.e)
            seq.append((nm[0] if len(nm) == 1 else "?", o.type if o.k == "r" else None))
        mdec.add(tuple(seq))
    enc_t = {tuple((n, t or made.get(n)) for n, t in s) for s in menc}
    r.ob("message-layout", "message", len(enc_t) == 1 and enc_t == mdec, "a message frame is written as %s but read as %s" % (list(enc_t), list(mdec)), f)
    f = r.func("vtelem.frame.fields", "to_parsed")
    d = V("sym", f.params[0])
    want = {"type": "message_type", "number": "message_number", "crc": "message_crc", "fragment_index": "fragment_index",
            "total_fragments": "total_fragments", "data": "fragment_bytes"}
    for p in r.paths(f, W.w):
        if p.kind == "exc":
            continue
        e = [e for e in p.events if e.kind == "new" and e.name == "ParsedMessage"]
        for k, n in want.items():
            v = e[-1].kw.get(k) if e else None
            ok = v is not None and mentions(v, V("item", d, const(n))) and not any(mentions(v, V("item", d, const(m))) for m in want.values() if m != n)
            r.ob("field-mapping", "ParsedMessage." + k, ok, "the parsed message's %s is not the %s received" % (k, n), e[-1] if e else f)

    # ---- every frame kind has its own parser and class
    mod = r.p.modules["vtelem.parsing.encapsulation"] if isinstance(r.p.modules, dict) else None
    kinds = {"DATA": "parse_data_frame", "EVENT": "parse_event_frame", "MESSAGE": "parse_message_frame", "INVALID": "parse_invalid_frame"}
    tab = None
    for m in (r.p.modules.values() if isinstance(r.p.modules, dict) else r.p.modules):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Dict):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and t.id == "PARSERS":
                    tab = {k.attr: v.id for k, v in zip(n.value.keys, n.value.values) if isinstance(k, ast.Attribute) and isinstance(v, ast.Name)}
    if tab is not None:
        for k, n in kinds.items():
            if k in tab:
                r.ob("parser-table", k, tab[k] == n, "%s frames are parsed by %s" % (k, tab[k]), FRAMES)
            else:
                r.ob("parser-table", k, k == "INVALID" and None, "%s frames have no parser" % k, FRAMES)
    r.require("payload-layout", "message-layout", "elements-appended", "id-written", "element-counted", "message-counted", "field-mapping")
