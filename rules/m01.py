"""M01: a message is delivered once, complete, and in order."""
from vsa.q import *
from vsa.rule import METRICS, Anchor

TP = "vtelem.frame.fields:to_parsed"


def flat(v):
    if v.k == "bin" and v.a[0] == "+":
        return flat(v.a[1]) + flat(v.a[2])
    return [v]


def check(r):
    r.rule("Every path through ingesting a fragment delivers exactly when the message was not complete before, the fragment is stored by then, and the number of "
           "distinct stored fragments (taken after storing) is known to be the total; the message is marked complete before it is delivered, and a complete "
           "message changes nothing. The content returned is the stored fragments from index 0 up, all of them, and only of complete messages. "
           "Every callback of the message's own type is called once.")
    me = V("sym", "self")
    mem, meta, cbs = (V("attr", me, x) for x in ("fragment_data", "data", "message_callbacks"))
    f = r.method("MessageCache", "ingest")
    r.func("vtelem.frame.fields", "to_parsed")
    cont = r.method("MessageCache", "content")
    w = r.walker(opaque=METRICS | {TP, "to_parsed", "MessageCache.content"}, loop=(0, 1, 2))
    new = old = 0
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        ms = [e.val for e in p.events if e.kind == "call" and e.name == "to_parsed" and e.val.k != "exc"]
        if len(ms) != 1:
            r.ob("parsed-once", f.qual, False if not ms else None, "a message frame is not parsed", f)
            continue
        m = ms[0]
        T, crc, idx, total, data, num = (V("attr", m, x) for x in ("type", "crc", "fragment_index", "total_fragments", "data", "number"))
        ev = list(enumerate(p.events))

        def ismeta(v):
            return v.k == "item" and v.a[0].k == "item" and v.a[0].a[0] == meta and mentions(v.a[0].a[1], T) and mentions(v.a[1], crc)
        newmeta = {e.val for _, e in ev if e.kind == "store" and e.recv.k == "item" and e.recv.a[0] == meta and mentions(e.recv.a[1], T)
                   and e.args and mentions(e.args[0], crc)}

        def entry(v):
            return ismeta(v) or v in newmeta
        was = None
        for _, v, pol, _ in assumes(p):
            if v.k == "item" and is_const(v.a[1], "complete") and ismeta(v.a[0]):
                was = pol
        for n in newmeta:
            if n.k == "obj":
                was = False
        delivered = [(i, e) for i, e in ev if e.kind == "call" and e.fi is None and e.fn is not None and mentions(e.fn, cbs)]
        its = [(i, e) for i, e in ev if e.kind == "iter" and e.args and mentions(e.args[0], cbs)]
        offered = its or any(mentions(v, cbs) and v.k == "item" for _, v, _, _ in assumes(p)) or any(e.kind == "call" and e.name == "content" for _, e in ev)
        marks = [(i, e) for i, e in ev if e.kind == "store" and e.args and is_const(e.args[0], "complete") and entry(e.recv) and not is_const(e.val, False)]
        taken = {e.val for _, e in ev if e.kind == "call" and e.fi is None and e.name in ("setdefault", "get") and e.recv is not None and mentions(e.recv, mem)}
        mems = [(i, e) for i, e in ev if e.kind == "store" and e.args and e.args[0] == idx and (mentions(e.recv, mem) or fresh(e.recv) or e.recv in taken)]
        wr = [(i, e) for i, e in ev if e.kind == "call" and e.name in ("open", "replace", "rename")]
        if was is True:
            old += 1
            bad = delivered or marks or mems or wr
            r.ob("complete-is-final", f.qual, not bad, "a fragment of a complete message is %s" % ("delivered" if delivered else "stored again"), bad[0][1] if bad else f)
            continue
        # number of distinct fragments compared with the total
        have = None
        at = None
        for i, v, pol, e in assumes(p):
            if v.k == "cmp" and mentions(v, total):
                if v.a[0] == "==":
                    have, at = pol, (i, [x for x in v.a[1:] if x != total])
                elif v.a[0] == "<" and v.a[2] == total:
                    have, at = not pol, (i, [v.a[1]])
                elif v.a[0] == "<=" and v.a[1] == total:
                    have, at = pol, (i, [v.a[2]])
        r.ob("delivery-decided", f.qual, have is not None or not (delivered or marks), "a message is considered complete without comparing its fragments with the total",
             (delivered or marks or [(0, f)])[0][1])
        if have is None:
            r.ob("completion-checked", f.qual, was is None and None or False, "a fragment is taken without checking whether the message is complete", f)
            continue
        stored = mems[0][0] if mems else None
        if at[1]:
            c = at[1][0]
            lens = [i for i, e in ev if e.kind == "len" and e.val == c]
            isdict = c.k == "app" and c.a[0] == "len" and mentions(c.a[1], mem) and not mentions(c.a[1], idx)
            known_new = c.k == "const" and stored is not None
            step = c.k == "bin" and c.a[0] == "+" and stored is not None
            ok = isdict or known_new or (None if step else False)
            r.ob("counts-distinct", f.qual, ok, "completeness is decided by %r instead of the number of distinct fragments" % c, f)
            if isdict and stored is not None and lens:
                r.ob("counts-after-storing", f.qual, lens[-1] > stored or len([i for i in lens if i > stored]) > 0 and lens[-1] > stored,
                     "fragments are counted before the one received is stored", p.events[lens[-1]])
        # the fragment received is there: stored now, or known to be there already
        there = stored is not None or any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == idx and pol for _, v, pol, _ in assumes(p))
        r.ob("fragment-kept", f.qual, there, "a received fragment is not stored", f)
        for i, e in mems:
            r.ob("own-slot", f.qual, e.val == data, "what is stored for a fragment is not its data", e)
        if have is True:
            new += 1
            r.ob("marked-complete", f.qual, len(marks) == 1, "a message which is complete is not marked so exactly once", f)
            got = [(i, e) for i, e in ev if e.kind == "call" and e.fi is cont and e.val.k != "exc"]
            src = its[0][1].args[0] if its else None
            empty = p.facts.get(V("item", cbs, T)) is False
            r.ob("delivered", f.qual, bool(its) and len(delivered) == len(its) or not its and empty, "a complete message is delivered to %d of %d callbacks" % (
                len(delivered), len(its)), f)
            r.ob("delivered", f.qual, not left_early(p, src) if src is not None else True, "a complete message is not delivered to all callbacks", f)
            for i, e in delivered:
                r.ob("own-callbacks", f.qual, V("item", cbs, T) == (e.fn.a[0] if e.fn.k == "elem" else src) or mentions(e.fn, V("item", cbs, T)),
                     "a message is delivered to callbacks of another type", e)
                r.ob("once-per-callback", f.qual, sum(1 for _, x in delivered if x.fn == e.fn) == 1, "a callback gets a message more than once", e)
                ok = len(e.args) == 3 and e.args[0] == T and bool(got) and e.args[1] == V("item", got[-1][1].val, const(0)) and e.args[2] == V("item", got[-1][1].val, const(1))
                num_ok = len(e.args) == 3 and e.args[0] == T and e.args[1] in (num,) and bool(got) and e.args[2] == V("item", got[-1][1].val, const(1))
                r.ob("delivers-content", f.qual, ok or num_ok or (None if not got else False), "what is delivered is not the type, number and content of the message", e)
                r.ob("marked-first", f.qual, bool(marks) and marks[0][0] < i, "a message is delivered before it is marked complete: a callback can deliver it again", e)
            for i, e in got:
                r.ob("own-content", f.qual, e.arg(0, "mtype") == T and e.arg(1, "crc") == crc, "the content of another message is delivered", e)
                frs = [j for j, x in ev if x.kind == "store" and x.args and is_const(x.args[0], "fragments") and entry(x.recv)]
                nums = [j for j, x in ev if x.kind == "store" and x.args and is_const(x.args[0], "number") and entry(x.recv) and x.val == num]
                r.ob("meta-first", f.qual, bool(frs) and frs[-1] < i and p.events[frs[-1]].val in at[1] + [total] and bool(nums) and nums[-1] < i,
                     "the content is assembled before the number of fragments and the message number are recorded", e)
        else:
            r.ob("incomplete-silent", f.qual, not delivered and not marks, "a message is delivered although fragments are missing", (delivered or marks or [(0, f)])[0][1])
    if not new or not old:
        raise Anchor("ingest: %d completing and %d repeated paths" % (new, old))

    # content: fragments in order, all of them
    mt, cr = (V("sym", x) for x in cont.params[1:3])
    some = 0
    ranges = set()
    for p in r.paths(cont, r.walker(loop=(0, 1, 2))):
        if p.kind == "exc":
            continue
        facts = [(v, pol) for _, v, pol, _ in assumes(p)]
        cp = [pol for v, pol in facts if v.k == "item" and is_const(v.a[1], "complete") and mentions(v.a[0], meta) and mentions(v, mt) and mentions(v, cr)]
        if p.val is None or is_none(p.val):
            miss = any(v.k == "cmp" and v.a[0] == "in" and pol is False for v, pol in facts)
            r.ob("content-available", cont.qual, miss or cp and cp[-1] is False, "the content of a complete message is withheld", cont)
            continue
        r.ob("content-complete-only", cont.qual, bool(cp) and cp[-1] is True, "the content of an incomplete message is handed out", cont)
        t = p.val.a if p.val.k == "tup" else None
        if t is None or len(t) != 2:
            r.ob("content-order", cont.qual, None, "content not understood", cont)
            continue
        r.ob("content-number", cont.qual, t[0].k == "item" and is_const(t[0].a[1], "number") and mentions(t[0], cr) and mentions(t[0], mt), "the message's number is %r" % t[0], cont)
        parts = [x for x in flat(t[1]) if not (x.k == "app" and x.a[0] in ("bytearray", "bytes") and len(x.a) == 1 or is_const(x) and cval(x) == b"")]
        if t[1].k not in ("bin", "app"):
            c = p.st.store.get(("C", t[1]))
            parts = list(c) if c is not None else parts
        parts += [e.args[0] for e in p.events if e.kind == "call" and e.name in ("extend", "append") and e.recv == t[1] and e.args and not (
            t[1].k == "obj" and p.st.store.get(("C", t[1])) is not None)]
        its = [e for e in p.events if e.kind == "iter"]
        ranges |= {e.args[0] for e in its}
        ok = all(x.k == "item" and mentions(x.a[0], mem) and mentions(x.a[0], cr) and mentions(x.a[0], mt) and is_const(x.a[1], i) for i, x in enumerate(parts)) and (
            len(parts) == len(its))
        if not its and parts and not ok:
            ok = None
        some += len(parts) > 1
        r.ob("content-order", cont.qual, ok, "the content is not the fragments in index order: %r" % t[1], cont)
    for c in ranges:
        n = c.a[1] if c.k == "app" and c.a[0] == "range" and len(c.a) == 2 else None
        r.ob("content-all", cont.qual, None if n is None else n.k == "item" and is_const(n.a[1], "fragments") and mentions(n, meta), "the content is not assembled from all fragments: %r" % c, cont)
    if not some and not any(o[2] is False for o in r.obs):
        raise Anchor("content never joins fragments")

    # dispatch: every callback once
    f = r.method("MessageDispatcher", "service_callbacks")
    t = V("sym", f.params[1])
    for p in r.paths(f, r.walker(loop=(0, 1, 2))):
        if p.kind == "exc":
            continue
        its = [e for e in p.events if e.kind == "iter"]
        cs = [e for e in p.events if e.kind == "call" and e.fi is None and e.fn is not None and mentions(e.fn, cbs)]
        r.ob("dispatch", f.qual, len(cs) == len(its) and len({e.fn for e in cs}) == len(cs) and all(mentions(e.fn, V("item", cbs, t)) for e in cs) and not left_early(p) and
             all(e.args == tuple(V("sym", x) for x in f.params[1:4]) for e in cs), "callbacks are not each called once with the message", f)
    f = r.method("MessageDispatcher", "add_callback")
    for p in r.paths(f, r.walker()):
        cs = [e for e in p.events if e.kind == "call" and e.name == "append" and e.recv == V("item", cbs, V("sym", f.params[1])) and e.args == (V("sym", f.params[2]),)]
        r.ob("registered", f.qual, p.kind == "exc" or len(cs) == 1, "a callback is not registered once", f)

    # complete messages found at start
    f = r.method("MessageCache", "service_all_callbacks")
    comp = r.method("MessageCache", "complete")
    any_ = 0
    for p in r.paths(f, r.walker(opaque=METRICS | {"MessageCache.content", "MessageCache.complete"}, loop=(0, 1))):
        if p.kind == "exc":
            continue
        cs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.fn is not None and mentions(e.fn, cbs)]
        got = {e.val: e for e in p.events if e.kind == "call" and e.fi is cont}
        comps = {e.val: e for e in p.events if e.kind == "call" and e.fi is comp}
        for i, e in cs:
            any_ += 1
            g = e.args[2].a[0] if len(e.args) == 3 and e.args[2].k == "item" else None
            ge = got.get(g)
            ok = ge is not None and e.args[0] == ge.arg(0, "mtype") and e.args[1] == V("item", g, const(0)) and e.args[2] == V("item", g, const(1)) and mentions(
                e.fn, V("item", cbs, ge.arg(0, "mtype")))
            r.ob("restart-delivery", f.qual, ok, "a message found at start is delivered under another type or with other content", e)
            src = [c for v, c in comps.items() if ge is not None and mentions(ge.arg(1, "crc"), v)]
            r.ob("restart-delivery", f.qual, bool(src) and ge is not None and src[0].args[0] == ge.arg(0, "mtype"), "what is delivered at start is not a complete message of its type", e)
            r.ob("restart-once", f.qual, sum(1 for _, x in cs if x.args == e.args and x.fn == e.fn) == 1, "a message is delivered twice at start", e)
    if not any_:
        r.ob("restart-delivery", f.qual, False, "complete messages are not delivered at start", f)
    for p in r.paths(comp, r.walker(loop=(0, 1, 2))):
        if p.kind == "exc":
            continue
        c = p.st.store.get(("C", p.val))
        its = [e for e in p.events if e.kind == "iter"]
        pos = [v.a[0].a[1] for _, v, pol, _ in assumes(p) if v.k == "item" and is_const(v.a[1], "complete") and v.a[0].k == "item" and pol]
        neg = [v for _, v, pol, _ in assumes(p) if v.k == "item" and is_const(v.a[1], "complete") and not pol]
        if c is None or any(x.k in ("app",) and x.a[0] == "*" for x in c):
            r.ob("complete-list", comp.qual, None, "list of complete messages not understood", comp)
            continue
        r.ob("complete-list", comp.qual, len(c) == len(pos) and all(mentions(x, k) for x, k in zip(c, pos)) and len(pos) + len(neg) == len(its) and not left_early(p),
             "the complete messages are not exactly those marked so", comp)
    r.require("complete-is-final", "counts-distinct", "delivered", "content-order", "content-all", "dispatch", "restart-delivery", "marked-first", "fragment-kept")
