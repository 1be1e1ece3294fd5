"""X01: every command is answered and no command can stop the processor."""
from rules._daemon import *
from rules.d05 import called

CB = V("sym", "result_cb")
CMD = V("sym", "command")
HASHABLE = {"str", "int", "bytes", "bool", "float", "typing.Hashable", "collections.abc.Hashable"}


def setup(r):
    """The command daemon's element handler as constructed, with the state to call it in, and the handlers it registers itself."""
    Q = r.cls("CommandQueueDaemon")
    r.cls("QueueDaemon")
    fam = {b for b in r.p.mro(Q) if not isinstance(b, str)}
    w = r.walker(opaque=QUIET | {"DaemonBase.__init__"}, inline_pred=lambda g, st: g.cls in fam and (g.name == "__init__" or r.private(g)))
    me = V("sym", "self").typed(("c", Q))
    init = r.p.find_method(Q, "__init__")
    out = []
    for p in r.call(w, V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        h = p.st.store.get(("A", me, "handle"))
        if h is None or h.k not in ("func", "bound"):
            raise Anchor("the command daemon's element handler")
        own = [e.args[1] if e.args[:1] and is_const(e.args[0]) else e.kw.get("handler") for e in p.events if e.kind == "call" and e.name == "register_consumer"]
        own = [a for a in own if a is not None and a.k in ("func", "bound")]
        st = p.st.fork()
        d = st.store.pop(("A", me, "handlers"), None)
        if d is not None:
            for k in [k for k in st.store if d in k]:
                st.store.pop(k)
            for k in [k for k in st.facts if mentions(k, d)]:
                st.facts.pop(k)
        out.append((h, st, own))
    if not out:
        raise Anchor("CommandQueueDaemon cannot be constructed")
    return me, out


def no_insert(r, kind, p, table, name):
    """No path step adds an entry to the table of lists."""
    for i, e in enumerate(p.events):
        if e.kind == "readitem" and e.recv == table:
            k = e.args[0] if e.args else None
            known = present_before(p, i, table, k) is not None or any(v.k == "item" and v.a[0] == table and v.a[1] == k and pol for _, v, pol, _e in assumes(p, i)) or \
                any(x.kind == "iter" and x.args and mentions(x.args[0], table) and (x.val == k or tup(x.val, 0) == k) for x in p.events[:i]) or \
                k is not None and k.k == "key" and k.a[0] == table
            if not known and k is not None and k.k == "elem" and k.a[0].k == "obj":
                comp = p.st.store.get(("COMP", k.a[0]))
                known = True if comp is not None and all(c.k == "key" and c.a[0] == table for c in comp) else None
            r.ob(kind, name, known, "an entry is looked up (and added) for %s without being known" % show(k), e)
        elif e.kind in ("store", "del") and e.recv == table or e.kind == "call" and e.fi is None and e.recv == table and e.name in ("setdefault", "update", "pop", "clear", "popitem", "__setitem__", "__getitem__"):
            r.ob(kind, name, False, "the table of handlers is changed", e)


def check(r):
    r.rule("The command daemon's element handler, as constructed, called with any command and result callback: reads of the command are guarded by type and presence tests; a path on which no handler runs "
           "answers once with failure; otherwise each handler of the list runs once and is followed by one answer carrying its own result, or failure when it raised (which ends nothing); "
           "no path adds to the table of handlers.")
    me, built = setup(r)
    reg = r.method("CommandQueueDaemon", "register_consumer")
    pos = None
    rp = reg.params
    for p in r.paths(reg):
        for e in p.events:
            if e.kind == "call" and e.name in ("append", "insert", "add"):
                for a in e.args:
                    for i in range(6):
                        if tup(a, i) == V("sym", rp[2]):
                            pos = i
                    if a == V("sym", rp[2]):
                        pos = -1
    if pos is None:
        raise Anchor("what register_consumer stores")
    # what is queued
    enq = r.method("CommandQueueDaemon", "enqueue")
    elems = set()
    for p in r.paths(enq):
        puts = [e for e in p.events if e.kind == "call" and e.name == "put"]
        if p.kind == "exc":
            continue
        r.ob("queued", enq.qual, len(puts) == 1, "a command is queued %d times" % len(puts), enq)
        for e in puts:
            elems.add(e.args[0])
    if len(elems) != 1:
        raise Anchor("what enqueue puts on the queue")
    el = elems.pop()
    from vsa.walk import Walker  # noqa
    cmd, cb = V("sym", enq.params[1]), V("sym", enq.params[2])
    table = V("attr", me, "handlers")
    ran = answered = 0
    for h, st, own in built:
        w = r.walker(opaque=QUIET | {"CommandQueueDaemon.register_consumer"}, loop=(0, 1, 2), track_reads=True, dict_errors=True,
                     raises=lambda e: ["Exception"] if e.fi is None and isinstance(e.fn, V) and e.fn.k == "item" and (pos == -1 or e.fn.a[1] == const(pos)) else [])
        name = h.a[0].qual
        for p in r.call(w, h, [el], st=st):
            hcalls = []
            its = [e for e in p.events if e.kind == "iter" and e.args and mentions(e.args[0], table)]
            xs = [e.val for e in its]
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.fi is None and called(e) is not None:
                    c = called(e)
                    for x in xs:
                        if c == x and pos == -1 or c == V("item", x, const(pos)):
                            hcalls.append((i, e, x))
            cbs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and called(e) == cb]
            has = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == cb and pol is False or v == cb and pol for _, v, pol, _e in assumes(p))
            none = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == cb and pol or v == cb and pol is False for _, v, pol, _e in assumes(p))
            # reads of the command
            for i, e in enumerate(p.events):
                base = e.recv if e.kind == "readitem" else e.args[0] if e.kind == "call" and e.fi is None and e.name == "update" and e.args else None
                if base is not None and mentions(base, cmd) and base.k in ("sym", "item"):
                    typed = any(v.k == "app" and v.a[0] == "isinstance" and v.a[1] == base and pol for _, v, pol, _e in assumes(p, i))
                    r.ob("checked-before-use", name, typed, "%s is used without checking what it is" % show(base), e)
                if e.kind == "assume" and e.val.k == "cmp" and e.val.a[0] == "in" and e.val.a[2] == table and mentions(e.val.a[1], cmd):
                    typed = any(v.k == "app" and v.a[0] == "isinstance" and v.a[1] == e.val.a[1] and pol and v.a[2].k == "ext" and v.a[2].a[0] in HASHABLE for _, v, pol, _e in assumes(p, i))
                    r.ob("checked-before-use", name, typed, "%s is looked up without checking that it can be" % show(e.val.a[1]), e)
            no_insert(r, "never-registers", p, table, name)
            if p.kind == "exc":
                hs = [e for _, e, _x in hcalls if e.val is not None and e.val.k == "exc"]
                if p.exc_name in ("KeyError", "TypeError", "AttributeError", "AssertionError") and not hs:
                    r.ob("keeps-running", name, False, "a command stops the processor with %s" % p.exc_name, h.a[0])
                elif hs:
                    r.ob("keeps-running", name, False, "a handler that raises stops the processor", hs[-1])
                continue
            if not hcalls:
                if has or not none:
                    r.ob("rejected-once", name, len(cbs) == 1 if has or cbs else None if not none else True, "a rejected command is answered %d times" % len(cbs), h.a[0])
                    answered += len(cbs) == 1
                for _, e in cbs:
                    r.ob("rejected-fails", name, bool(e.args) and is_const(e.args[0]) and not cval(e.args[0]), "a rejected command is answered with %s" % show(e.args[0]), e)
                if its:
                    r.ob("each-handler", name, False, "a handler is not run", its[0])
                continue
            ran += 1
            for e in its:
                n = sum(1 for _, _e, x in hcalls if x == e.val)
                r.ob("each-handler", name, n == 1, "a handler runs %d times" % n, e)
            if its:
                early = left_early(p, its[0].args[0])
                r.ob("each-handler", name, not early, "the remaining handlers are not run", its[-1])
            for k, (i, e, x) in enumerate(hcalls):
                end = hcalls[k + 1][0] if k + 1 < len(hcalls) else len(p.events)
                mine = [(j, c) for j, c in cbs if i < j < end]
                if none:
                    r.ob("answered", name, not mine, "an answer nobody waits for", e)
                    continue
                if not has and not mine:
                    continue
                r.ob("answered", name, len(mine) == 1, "a handler's result is answered %d times" % len(mine), e)
                for _, c in mine:
                    a = c.args[0] if c.args else None
                    if e.val is not None and e.val.k == "exc":
                        r.ob("failure-answered", name, a is not None and is_const(a) and not cval(a), "a handler that raised is answered with %s" % show(a), c)
                    else:
                        r.ob("own-result", name, a == V("item", e.val, const(0)) or (a is not None and a.k == "app" and a.a[0] == "bool" and a.a[1] == V("item", e.val, const(0))),
                             "a handler is answered with %s" % show(a), c)
                        m = c.arg(1)
                        r.ob("own-message", name, m is not None and mentions(m, e.val), "a handler's message is answered with %s" % show(m), c)
            stray = [j for j, c in cbs if j < hcalls[0][0]]
            r.ob("answered", name, not stray, "a command is answered before its handlers ran", h.a[0])
        for o in own:
            for p in r.call(r.walker(opaque=QUIET, loop=(0, 1, 2), track_reads=True), o, [V("sym", "data")], st=st):
                no_insert(r, "never-registers", p, table, o.a[0].qual)
    r.ob("reaches", "CommandQueueDaemon", ran > 0 and answered > 0, "no handler is run or no command rejected", reg)
    r.require("rejected-once", "each-handler", "own-result", "failure-answered", "never-registers", "reaches", "checked-before-use")
