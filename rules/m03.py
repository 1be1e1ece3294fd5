"""M03: message fragments cover the message exactly and agree on metadata."""
import math

from rules._wire import *
from rules._wire import _sub

FIELDS = ("message_type", "message_number", "message_crc", "total_fragments")


def ceil_div(v):
    """(numerator, denominator) when v is the quotient rounded up."""
    if v.k in ("app", "call") and str(v.a[0]).split(".")[-1] == "ceil" and len(v.a) >= 2 and v.a[1].k == "bin" and v.a[1].a[0] == "/":
        return v.a[1].a[1], v.a[1].a[2]
    if v.k == "app" and v.a[0] in ("neg", "-", "usub") and v.a[1].k == "bin" and v.a[1].a[0] == "//":
        n = v.a[1].a[1]
        if n.k == "app" and n.a[0] == v.a[0]:
            return n.a[1], v.a[1].a[2]
    if v.k == "bin" and v.a[0] == "//":
        t = V("bin", "+", V("bin", "-", v.a[1], v.a[2]), const(1))
        return ("lin", t), v.a[2]
    return None


def fold(v, env):
    """Value of an arithmetic term under an assignment of its leaves; KeyError/TypeError when it has other operators."""
    if v in env:
        return env[v]
    if is_const(v):
        return cval(v)
    if v.k == "bin":
        a, b = fold(v.a[1], env), fold(v.a[2], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "/": lambda: a / b, "%": lambda: a % b}[v.a[0]]()
    if v.k in ("app", "call"):
        n = str(v.a[0]).split(".")[-1]
        xs = [fold(x, env) for x in v.a[1:]]
        return {"ceil": math.ceil, "floor": math.floor, "max": max, "min": min, "int": int, "round": round, "neg": lambda x: -x, "usub": lambda x: -x, "-": lambda x: -x}[n](*xs)
    raise KeyError(v.k)


def differs(v, frame, n, hdr):
    """False when the term differs from the rounded-up quotient for some small sizes, else None."""
    try:
        for per in range(1, 9):
            for k in range(1, 40):
                if fold(v, {n: k, V("attr", frame, "mtu"): per + hdr + 20, V("attr", frame, "overhead"): 20}) != -(-k // per):
                    return False
    except (KeyError, TypeError, ZeroDivisionError):
        pass
    return None


def minargs(v):
    if v.k == "app" and v.a[0] == "min":
        return list(v.a[1:])
    return [v]


def check(r):
    r.rule("On every path through the splitting of a message (0 to %d fragments) the returned frames are distinct, each is filled once and finished once after "
           "that, their contents are consecutive slices from 0 of at most mtu minus overhead bytes, the fields they carry are the loop-invariant type, number, "
           "checksum and rounded-up quotient, and the index counts from 0; the type's next number is stored once, plus one modulo its field's range." % (4 if r.tier == "thorough" else 3))
    W = Wire(r)
    p_ = r.p
    f = r.method("MessageFramer", "serialize_message")
    cls = r.cls("MessageFramer")
    r.method("MessageFrame", "initialize"), r.method("Frame", "finalize"), r.method("Framer", "new_frame")
    w = W.walker(opaque={"MessageFrame.initialize", "Frame.finalize", "MessageFrame.finalize", "MessageFramer.message_frame", "Framer.new_frame"},
                 loop=(0, 1, 2, 3) + ((4,) if r.tier == "thorough" else ()), while_max=4)
    msg, mt, me = V("sym", "message"), V("sym", "message_type"), V("sym", "self")
    dots = [V("app", "len", msg)]
    total_len = dots[0]
    n = nf = 0
    overhead = None
    for p in r.paths(f, w):
        if p.kind == "exc" or left_early(p):
            if p.kind != "exc" and left_early(p):
                r.ob("all-fragments", f.qual, False, "the loop over the fragments is left early", f)
            continue
        n += 1
        ops = W.ops(p)
        # values of the field primitives as of an event
        inits = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("initialize", "initialize_str") and e.recv is not None and e.fi is not None]
        fins = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "finalize" and e.recv is not None]
        out = tup(p.val, 0)
        frames = p.st.store.get(("C", out)) if out is not None else None
        if out is not None and out.k == "tup":
            frames = out.a
        if isinstance(frames, V):
            frames = frames.a if frames.k == "tup" else None
        if frames is None and out is not None and out.k == "obj" and not inits:
            frames = ()
        if frames is None or any(not isinstance(x, V) for x in frames):
            r.ob("result", f.qual, None, "returned frames not understood: %s" % show(p.val), f)
            continue
        frames = list(frames)
        r.ob("distinct", f.qual, len(set(frames)) == len(frames) and all(any(e.kind == "call" and e.val == x and e.fi is not None for e in p.events) for x in frames),
             "a frame is returned twice or is not newly made", f)
        r.ob("filled-once", f.qual, [e.recv for _, e in inits] == frames, "the returned frames are not the filled frames in order", f)
        ok = sorted(map(repr, [e.recv for _, e in fins])) == sorted(map(repr, frames)) and all(
            [j for j, x in fins if x.recv == e.recv][:1] > [i] for i, e in inits)
        r.ob("finished-once", f.qual, ok, "a returned frame is not finished exactly once after it is filled", f)
        nb = tup(p.val, 1)
        s = const(0)
        for _, e in fins:
            s = V("bin", "+", s, e.val)
        r.ob("byte-total", f.qual, lin_eq(nb, s), "the byte count %s is not the sum of the frames' sizes" % show(nb), f)
        # metadata
        start = const(0)
        first = None
        loops = [e for e in p.events if e.kind == "iter" and e.fn is None and e.args and e.args[0].k == "app" and e.args[0].a[0] == "range"] or \
                [e for e in p.events if e.kind == "iter" and e.args and e.args[0].k == "app" and e.args[0].a[0] == "range"]
        for k, (i, e) in enumerate(inits):
            nf += 1
            d = e.arg(0, "field_data")
            vals = {}
            for name in FIELDS + ("fragment_index",):
                prim = None
                for x in p.events[:i]:
                    if x.kind == "store" and x.recv == d and x.args[0] in (const(name),):
                        prim = x.val
                v = None
                if prim is not None:
                    for x in p.events[:i]:
                        if x.kind == "call" and x.name == "set" and x.recv == prim and x.args:
                            v = x.args[0]
                        elif x.kind == "write" and x.name == "data" and x.recv == prim and v is None:
                            v = x.val
                vals[name] = v
            if any(v is None for v in vals.values()):
                r.ob("fields", f.qual, False if d is not None and d.k == "obj" else None, "a field is not set: %s" % sorted(k for k, v in vals.items() if v is None), e)
                continue
            r.ob("index", f.qual, lin_eq(vals["fragment_index"], const(k)), "fragment %d is given index %s" % (k, show(vals["fragment_index"])), e)
            if first is None:
                first = vals
            r.ob("same-metadata", f.qual, all(vals[x] == first[x] for x in FIELDS), "fragments of one message differ in a shared field", e)
            r.ob("type", f.qual, vals["message_type"].k == "extm" and vals["message_type"].a[0] == mt or vals["message_type"] in (V("attr", mt, "value"), mt),
                 "the type field is %s" % show(vals["message_type"]), e)
            c = [x for x in p.events[:i] if x.kind == "call" and x.val == vals["message_crc"]]
            okc = bool(c) and whole(c[-1].args[0], msg, total_len) and c[-1].name.split(".")[-1] in ("crc32", "crc")
            r.ob("checksum", f.qual, okc, "the checksum field is %s" % show(vals["message_crc"]), e)
            r.ob("number", f.qual, vals["message_number"] == V("item", V("attr", me, "message_numbers"), mt), "the number field is %s" % show(vals["message_number"]), e)
            q = ceil_div(vals["total_fragments"])
            if q is None:
                r.ob("total", f.qual, differs(vals["total_fragments"], frames[0], total_len, header(r, W)), "the total is %s" % show(vals["total_fragments"]), e)
            else:
                num, per = q
                okn = lin_eq(num[1], total_len) if isinstance(num, tuple) else num == total_len
                r.ob("total", f.qual, okn, "the total is %s" % show(vals["total_fragments"]), e)
                # per = mtu - (header + overhead) of a frame of this framer
                okp = None
                for fr in frames:
                    for hdr in (V("attr", fr, "overhead"),):
                        diff = lin_sub(V("attr", fr, "mtu"), V("bin", "+", per, hdr))
                        t, cst = diff
                        if not t:
                            okp = cst
                r.ob("capacity", f.qual, None if okp is None else okp == header(r, W), "a fragment may take %s bytes" % show(per), e)
                # slice
                frag = e.arg(1, "fragment")
                if frag.k == "app" and frag.a[0] == "slice" and frag.a[1] == msg:
                    lo = frag.a[2] if frag.a[2] is not None and not is_none(frag.a[2]) else const(0)
                    hi = frag.a[3]
                    r.ob("consecutive", f.qual, lin_eq(lo, start), "fragment %d starts at %s, its predecessor ends at %s" % (k, show(lo), show(start)), e)
                    size = V("bin", "-", hi, lo) if hi is not None and not is_none(hi) else None
                    ends = [x for x in ([hi] if hi is not None else []) if not is_none(x)]
                    oks = size is not None and (lin_eq(size, per) or _ismin(size, per, V("bin", "-", total_len, lo), hi, total_len, lo)
                                               or lin_eq(hi, total_len) and known_ge(p, V("bin", "-", per, size), i))
                    r.ob("fits", f.qual, oks, "fragment %d takes %s..%s: not the next %s bytes or the rest" % (k, show(lo), show(hi) if hi is not None else "end", show(per)), e)
                    start = hi if hi is not None else total_len
                elif frag == msg:
                    r.ob("fits", f.qual, False, "a fragment is the whole message", e)
                else:
                    r.ob("consecutive", f.qual, None, "fragment is %s" % show(frag), e)
                # loop bound
                if loops:
                    src = loops[-1].args[0]
                    stop = src.a[1] if len(src.a) == 2 else src.a[2] if len(src.a) > 2 else None
                    lo_ok = len(src.a) == 2 or (len(src.a) == 3 and src.a[1] in (const(0),))
                    if len(src.a) == 4 and src.a[1] == const(0) and stop == total_len and lin_eq(src.a[3], per):
                        r.ob("all-fragments", f.qual, True, "", e)
                    else:
                        r.ob("all-fragments", f.qual, lo_ok and stop == vals["total_fragments"], "the loop makes %s fragments, the total says %s" % (show(src), show(vals["total_fragments"])), e)
        # numbering
        st = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv == V("attr", me, "message_numbers")]
        other = [e for i, e in st if e.args[0] != mt]
        r.ob("own-number", f.qual, not other, "the number of another type is changed", other[0] if other else f)
        if not [1 for _, e in st if e.args[0] == mt]:
            r.ob("next-number", f.qual, False, "the type's next number is not advanced", f)
        else:
            v = [e.val for _, e in st if e.args[0] == mt][-1]
            cur = V("item", V("attr", me, "message_numbers"), mt)
            m = v.a[2] if v.k == "bin" and v.a[0] == "%" and is_const(v.a[2]) else None
            ok = m is not None and lin_eq(v.a[1], V("bin", "+", cur, const(1))) and cval(m) == span(r, W)
            if not ok and m is None:
                # reset by comparison
                top = const(span(r, W) - 1)
                if is_const(v) and cval(v) == 0:
                    ok = any(x.k == "cmp" and ((x.a[0] == "==" and pol) or (x.a[0] == "<" and not pol)) and mentions(x, cur) for _, x, pol, _e in assumes(p))
                elif lin_eq(v, V("bin", "+", cur, const(1))):
                    ok = any(x.k == "cmp" and mentions(x, cur) for _, x, pol, _e in assumes(p)) or False
                ok = None if ok else False
            r.ob("next-number", f.qual, ok, "the next number is %s" % show(v), f)
    r.require("filled-once", "index", "next-number")
    # every type starts at 0
    for st in W.built("MessageFramer"):
        t = st.store.get(("A", me, "message_numbers"))
        members = [m for m in r.cls("MessageType").assigns if not m.startswith("_")]
        got = {m: st.store.get(("I", t, V("enum", r.cls("MessageType"), m))) for m in members} if t is not None else {}
        if any(v is None for v in got.values()):
            ks = [k for k in st.store if k[0] == "I" and k[1] == t]
            ok = None if t is not None and (not ks or st.store.get(("C", t)) is not None) else False
            r.ob("initial-number", "MessageFramer", ok, "no first number for %s" % [m for m, v in got.items() if v is None], r.method("MessageFramer", "__init__"))
        else:
            r.ob("initial-number", "MessageFramer", all(is_const(v) and cval(v) == 0 for v in got.values()), "a type's first number is not 0", r.method("MessageFramer", "__init__"))
    # entry points
    k = 0
    for name in ("serialize_message_str", "serialize_message_json", "serialize_object"):
        g = r.method("MessageFramer", name)
        for p in r.paths(g, r.walker(opaque=METRICS | {"MessageFramer.serialize_message"}, max_depth=6)):
            if p.kind == "exc":
                continue
            c = [e for e in p.events if e.kind == "call" and e.name == "serialize_message"]
            k += 1
            if len(c) != 1:
                r.ob("entry-once", name, False, "%s serializes %d messages" % (name, len(c)), g)
                continue
            e = c[0]
            r.ob("entry-once", name, p.val == e.val, "the frames are not returned", e)
            r.ob("entry-type", name, e.arg(2, "message_type") == mt, "the caller's message type is not used", e)
            r.ob("entry-time", name, e.arg(1, "time") == V("sym", "time"), "the caller's time is not used", e)
            r.ob("entry-text", name, True if mentions_call(p, e.args[0], msg) else False if is_const(e.args[0]) else None, "the message sent is %s" % show(e.args[0]), e)
    r.require("initial-number", "entry-once")


def mentions_call(p, v, msg, depth=0):
    """Does v derive from msg through calls of this path?"""
    if mentions(v, msg):
        return True
    if depth > 5:
        return False
    for s in subterms(v):
        for e in p.events:
            if e.kind == "call" and e.val == s and e.val is not None:
                if any(mentions_call(p, a, msg, depth + 1) for a in list(e.args) + ([e.recv] if e.recv is not None else []) if isinstance(a, V)):
                    return True
    return False


def whole(v, msg, n):
    if v == msg:
        return True
    return v.k == "app" and v.a[0] == "slice" and v.a[1] == msg and (v.a[2] is None or is_none(v.a[2]) or v.a[2] == const(0)) and (v.a[3] is None or is_none(v.a[3]) or lin_eq(v.a[3], n))


def _ismin(size, per, rest, hi, n, lo):
    """Is size (an expression) min(per, rest)?  Either min(..) itself or hi == min(lo + per, n)."""
    for v, a, b in ((size, per, rest), (hi, V("bin", "+", lo, per), n)):
        t, c = lin(v)
        if v.k != "app" and len(t) == 1 and c == 0:
            items = list(t.items()) if isinstance(t, dict) else list(t)
            (x, k) = items[0]
            if k == 1:
                v = x
        m = minargs(v)
        if len(m) == 2 and (lin_eq(m[0], a) and lin_eq(m[1], b) or lin_eq(m[0], b) and lin_eq(m[1], a)):
            return True
        if len(m) == 1 and lin_eq(v, b) and False:
            return True
    return False


def table(r, W):
    """Field name -> primitive member, from the fields table."""
    w = r.walker()
    out = {}
    for p in r.call(w, V("func", r.method("MessageFrame", "create_fields"), None), []):
        if p.kind == "exc":
            continue
        for k, v in p.st.store.items():
            if k[0] == "I" and k[1] == p.val and v is not None:
                name = cval(k[2]) if isinstance(k[2], V) and is_const(k[2]) else k[2]
                out[name] = p.st.store.get(("A", v, "type"))
    return out


def header(r, W):
    if not hasattr(r, "_hdr"):
        t = table(r, W)
        r._hdr = sum(cval(W.size(x)) for x in t.values()) if t else None
    return r._hdr


def span(r, W):
    t = table(r, W)
    for k, v in t.items():
        if k == "message_number":
            return 2 ** (8 * cval(W.size(v)))
    raise Anchor("message_number field")
