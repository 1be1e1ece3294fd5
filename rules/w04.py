"""W04: frames never outgrow the MTU and reject an element untouched."""
from rules._wire import *

STATE = {"used", "finalized", "initialized", "buffer", "elem_buffer", "count", "mtu", "overhead", "value", "size", "pos", "data"}


def check(r):
    r.rule("On every path on which a channel frame accepts an element, a comparison on that path bounds the final size (the sum of the sizes of all "
           "bytes written) by the MTU and the frame is known not to be finalized; on every refusing path nothing of the frame is written; "
           "the accounted size always moves by exactly the bytes written.")
    W = Wire(r)
    me = V("sym", "self")
    used, mtu = V("attr", me, "used"), V("attr", me, "mtu")
    w = W.walker()

    def sz(v):
        return _fixsize(W, v)

    def moved(p, ops):
        tot = const(0)
        for o in ops:
            if o.k == "w":
                if o.pos is not None and not is_none(o.pos):
                    continue
                tot = V("bin", "+", tot, W.size(o.type))
            elif o.k == "a":
                n = o.pos if o.pos is not None and not is_none(o.pos) else V("app", "len", o.e.arg(0, "other"))
                tot = V("bin", "+", tot, n)
            elif o.k == "advance" and o.type is not None:
                tot = V("bin", "+", tot, o.type)
        return tot

    for m in ("add", "add_event"):
        f = r.method("ChannelFrame", m)
        n = 0
        for p in r.paths(f, w):
            ops = [o for o in W.ops(p, "ChannelFrame") if o.k in ("w", "a", "advance", "reset", "set_pos", "expand_to") and root(o.buf) == me]
            fin = p.st.store.get(("A", me, "used"), used)
            if p.kind == "exc":
                continue
            if p.val is not None and is_const(p.val, False):
                muts = [e for _, e in mutations(p) if root(e.recv) == me and (e.name in STATE or e.kind == "store" and cval(e.args[0]) in STATE)]
                r.ob("refused-untouched", f.qual, not ops and not muts, "a refused element changes the frame", ops[0].e if ops else muts[0] if muts else f)
                continue
            if p.val is None or not is_const(p.val, True):
                r.ob("answer", f.qual, None if p.val is not None and not is_none(p.val) else False, "whether the element was added is not answered: %r" % p.val, f)
                continue
            n += 1
            final = sz(W.subst(fin, ops))
            r.ob("accounted", f.qual, lin_eq(final, V("bin", "+", used, sz(moved(p, ops)))),
                 "the frame's size grows by %r while the bytes written are %r" % (lin_sub(final, used), moved(p, ops)), f)
            first = min([o.i for o in ops] or [len(p.events)])
            fit = known_ge(p, V("bin", "-", mtu, final), first, sub=lambda v: sz(W.subst(v, ops)))
            r.ob("fits-mtu", f.qual, fit, "an element is written without the frame being known to stay within the MTU", ops[0].e if ops else f)
            nf = any(v == V("attr", me, "finalized") and pol is False for _, v, pol, _ in assumes(p, first))
            r.ob("not-finalized", f.qual, nf, "an element is added to a frame which may be finalized", ops[0].e if ops else f)
        if not n and not any(o[2] is False for o in r.obs):
            raise Anchor("%s never accepts an element" % f.qual)

    # construction reserves the header and the checksum
    for cls in ("ChannelFrame", "MessageFrame", "Frame"):
        ci = r.cls(cls)
        sts = W.built(cls)
        for st in sts:
            ops = [o for o in _ctor_ops(W, st, me) if o.k in ("w", "a", "advance")]
            crc = st.store.get(("A", me, "crc"), NONE)
            fin = st.store.get(("A", me, "used"), used)
            tot = sz(moved(None, [o for o in ops if o.buf == st.store.get(("A", me, "buffer"))]))
            if not is_none(crc):
                t = st.store.get(("A", crc, "type"))
                tot = V("bin", "+", tot, W.size(t)) if t is not None else None
            final = sz(W.subst(fin, ops))
            if tot is None:
                r.ob("overhead", cls, None, "checksum type not understood", cls)
                continue
            r.ob("overhead", cls, lin_eq(final, tot), "a new frame%s accounts for %r bytes but its header and checksum take %r" % (
                "" if is_none(crc) else " with a checksum", lin_sub(final, const(0)), tot), ops[0].e if ops else cls)
            r.ob("mtu-kept", cls, st.store.get(("A", me, "mtu")) == V("sym", "mtu"), "a frame does not keep the MTU it was given", cls)
    # message frames account for what they write
    f = r.method("MessageFrame", "initialize")
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        ops = [o for o in W.ops(p, "MessageFrame") if o.k in ("w", "a", "advance", "reset", "set_pos") and root(o.buf) == me]
        final = sz(W.subst(p.st.store.get(("A", me, "used"), used), ops))
        r.ob("accounted", f.qual, lin_eq(final, V("bin", "+", used, sz(moved(p, ops)))), "a message frame's size is not the bytes written", f)
    r.require("accounted", "fits-mtu", "not-finalized", "refused-untouched", "overhead")


def _ctor_ops(W, st, me):
    class P:
        pass
    p = P()
    p.st, p.events = st, st.events()
    return W.ops(p)


def _fixsize(W, v):
    """Sizes of primitives of the frame resolved to the types construction gave them."""
    if not isinstance(v, V):
        return tuple(_fixsize(W, x) for x in v) if isinstance(v, tuple) else v
    if v.k == "extm" or v.k == "attr" and v.a[1] == "size":
        b = v.a[0]
        while b.k in ("attr", "extm") and b.a[1] in ("value", "size"):
            b = b.a[0]
        t = W.fixed(b, "ChannelFrame")
        if t != b and t.k == "enum":
            return W.size(t)
        return v
    if not any(isinstance(x, (V, tuple)) for x in v.a):
        return v
    return V(v.k, *[_fixsize(W, x) if isinstance(x, (V, tuple)) else x for x in v.a], ty=v.ty)
