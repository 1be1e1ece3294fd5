"""W08: a finalized frame never changes and only finalized frames are sent."""
import ast

from rules._wire import *

CONTENT = ("w", "a", "advance", "reset", "set_pos", "expand_to")


def check(r):
    r.rule("Every path through finalizing a frame which is already finalized changes nothing and reports the size; every other one requires the contents to be "
           "complete, ends with the frame finalized and writes nothing afterwards. Nothing else changes whether a frame is finalized or its contents are complete. "
           "Every path yielding raw bytes or the length-prefixed form knows the frame is finalized; the prefix is set, successfully, to the size used. "
           "Contents are accepted only by frames which are known not to be complete, channel elements only by frames known not to be finalized.")
    W = Wire(r)
    me = V("sym", "self")
    used, fin, ini = (V("attr", me, x) for x in ("used", "finalized", "initialized"))
    F = r.cls("Frame")
    subs = [c for c in r.p.classes if r.p.is_sub(c, F)]
    w = W.walker()

    def known(p, v, upto=None):
        out = None
        for _, x, pol, _ in assumes(p, upto):
            if x == v:
                out = pol
        return out

    done = set()
    for c in subs:
        f = r.p.find_method(c, "finalize")
        if f is None:
            raise Anchor("%s cannot be finalized" % c.name)
        ps = w.call_value(V("bound", f, me.typed(("c", c))), [V("sym", "write_crc")])
        r.note_walk(w, ps, f.qual)
        for p in ps:
            k = known(p, fin)
            ops = [o for o in W.ops(p, c.name if c.name in ("ChannelFrame", "MessageFrame", "Frame") else None) if o.k in CONTENT and root(o.buf) == me]
            muts = [e for e in p.events if e.kind in ("write", "store") and e.recv is not None and root(e.recv) == me]
            sets = [e for e in p.events if e.kind == "call" and e.name == "set" and e.recv is not None and root(e.recv) == me]
            if k is True:
                bad = ([o.e for o in ops] + muts + sets)[:1]
                r.ob("finalize-once", c.name, not bad, "finalizing a frame again changes it", bad[0] if bad else f)
                r.ob("reports-size", c.name, p.kind != "exc" and p.val == used, "finalizing a frame again does not report its size", f)
                continue
            if p.kind == "exc":
                continue
            if k is None:
                r.ob("finalize-once", c.name, not ops and not muts and not sets, "a frame is finalized without checking whether it already is", ops[0].e if ops else f)
                if not ops:
                    continue
            now = p.st.store.get(("A", me, "finalized"))
            r.ob("becomes-final", c.name, now is not None and is_const(now, True), "a frame is not marked as finalized", f)
            r.ob("reports-size", c.name, p.val == p.st.store.get(("A", me, "used"), used), "finalizing does not report the size used", f)
            mark = [i for i, e in enumerate(p.events) if e.kind == "write" and e.recv == me and e.name == "finalized"]
            late = [o for o in ops if mark and o.i > mark[0]]
            r.ob("nothing-after", c.name, not late, "a frame is written to after it is marked as finalized", late[0].e if late else f)
            if c is not F:
                own = any(e.kind == "write" and e.recv == me and e.name == "initialized" and is_const(e.val, True) for e in p.events)
                r.ob("contents-complete", c.name, own or known(p, ini) is True, "a frame without contents can be finalized", f)
            done.add(c.name)
    if not done - {"Frame"}:
        raise Anchor("no frame can be finalized")

    # who changes whether a frame is finalized
    fin_impl = {r.p.find_method(c, "finalize") for c in subs}
    n = 0
    for c in subs:
        for m in [f for f in r.p.functions if f.cls is c and f.parent is None]:
            if m.name == "__init__" or m.is_static or m.is_classmethod:
                continue
            for p in w.call_value(V("bound", m, me.typed(("c", c))), [V("sym", x) for x in m.params[1:]]):
                n += 1
                for e in p.events:
                    if e.kind == "write" and e.name == "finalized" and e.recv == me:
                        r.ob("only-finalize", m.qual, is_const(e.val, True) and (m in fin_impl or r.helper_of(m, fin_impl) or any(x.name == "finalize" for x in e.stack)),
                             "whether a frame is finalized is changed by %s" % m.name, e)
                    if e.kind == "write" and e.name == "initialized" and e.recv == me:
                        r.ob("stays-complete", m.qual, is_const(e.val, True), "complete contents are marked incomplete again", e)
    types = {}
    for fi in r.p.functions:
        if fi.node is None or fi.cls is not None and fi.cls in subs:
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in ("finalized", "initialized"):
                t = r.p.expr_type(x.value, fi)
                isf = bool(t and t[0] == "c" and r.p.is_sub(t[1], F))
                if isf or t is None and x.attr == "finalized":
                    r.ob("only-finalize", fi.qual, False, "whether a frame is finalized is changed from outside of it", "%s:%d" % (fi.module.rel if hasattr(fi.module, "rel") else fi.loc(), x.lineno))
    for c in ("ChannelFrame", "MessageFrame", "Frame"):
        for st in W.built(c):
            r.ob("starts-open", c, is_const(st.store.get(("A", me, "finalized"), NONE), False) and is_const(st.store.get(("A", me, "initialized"), NONE), False),
                 "a new frame does not start open and without contents", r.cls(c))

    # message contents
    for m in [f for f in r.p.functions if f.cls is not None and f.cls.name == "MessageFrame" and f.parent is None and not f.is_static and f.name != "finalize_hook"]:
        if m.name == "__init__":
            continue
        for p in w.call_value(V("bound", m, me.typed(("c", m.cls))), [V("sym", x) for x in m.params[1:]]):
            ops = [o for o in W.ops(p, "MessageFrame") if o.k in CONTENT and root(o.buf) == me]
            if not ops:
                continue
            r.ob("contents-once", m.qual, known(p, ini, ops[0].i) is False or known(p, fin, ops[0].i) is False and False, "a message frame accepts contents although it may already have some", ops[0].e)
            if p.kind != "exc":
                r.ob("contents-once", m.qual, is_const(p.st.store.get(("A", me, "initialized"), NONE), True), "a message frame does not remember that it has contents", ops[0].e)

    # elements are accepted only while the frame is open
    for m in (r.method("ChannelFrame", x) for x in ("add", "add_event")):
        for p in w.call_value(V("bound", m, me.typed(("c", m.cls))), [V("sym", x) for x in m.params[1:]]):
            ops = [o for o in W.ops(p, "ChannelFrame") if o.k in CONTENT and root(o.buf) == me]
            if ops:
                r.ob("open-only", m.qual, known(p, fin, ops[0].i) is False, "an element is accepted although the frame may be finalized", ops[0].e)

    # bytes come only out of finalized frames
    for name in ("raw", "with_size_header"):
        f = r.method("Frame", name)
        for p in r.paths(f, w):
            if p.kind == "exc":
                continue
            r.ob("final-only", f.qual, known(p, fin) is True, "a frame's bytes are handed out although it may not be finalized", f)
            muts = [e for e in p.events if e.kind in ("write", "store") and e.recv is not None and root(e.recv) == me]
            r.ob("final-only", f.qual, not muts, "handing out a frame's bytes changes it", muts[0] if muts else f)
            data = V("attr", V("attr", me, "buffer"), "data")
            t = p.val.a if p.val.k == "tup" else None
            if name == "raw":
                r.ob("raw-bytes", f.qual, None if t is None else t[0] in (data, V("app", "slice", data, NONE, used, NONE)) and t[1] == used,
                     "a frame's bytes or size are not what was written", f)
                continue
            sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "set"]
            ok = len(sets) == 1 and sets[0][1].args[0] == used and known(p, sets[0][1].val) is True
            r.ob("prefix-size", f.qual, ok, "the length prefix is not the size of the frame", sets[0][1] if sets else f)
            bufs = [e for e in p.events if e.kind == "call" and e.name == "buffer"]
            ok = len(bufs) == 1 and len(sets) == 1 and bufs[0].recv == sets[0][1].recv and p.events.index(bufs[0]) > sets[0][0]
            if t is not None and ok:
                x = t[0]
                ok = x.k == "bin" and x.a[0] == "+" and x.a[1] == bufs[0].val and mentions(x.a[2], data)
                if x.k != "bin":
                    ok = None
            r.ob("prefix-first", f.qual, None if t is None else ok, "the prefixed form is not the length followed by the frame", bufs[0] if bufs else f)
            if t is not None and ok and len(t) > 1:
                ts = [e.val for e in p.events if e.kind == "write" and e.name == "type" and e.recv == bufs[0].recv]
                ty = ts[-1] if ts else V("attr", bufs[0].recv, "type")
                r.ob("prefix-counted", f.qual, lin_eq(t[1], V("bin", "+", used, W.size(ty))), "the size of the prefixed form is reported as %r" % t[1], f)
    # sending: everything put on the writer's streams and connections comes from with_size_header or raw
    r.require("finalize-once", "becomes-final", "contents-complete", "only-finalize", "contents-once", "final-only", "prefix-size", "prefix-counted", "raw-bytes")
