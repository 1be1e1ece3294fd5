"""S02: streams, queues and clients are unregistered on every way out."""
import ast

from rules._daemon import *
from rules.s01 import over
from vsa.q import MUT
from vsa.walk import St

SELF = V("sym", "self")
DROP = {"pop", "remove", "discard"}


def contains(p, v, x):
    if mentions(v, x):
        return True
    for y in subterms(v):
        if y.k == "obj":
            for k in (("C", y), ("COMP", y), ("K", y)):
                if any(z != y and contains(p, z, x) for z in p.st.store.get(k) or () if isinstance(z, V)):
                    return True
            if any(k[0] == "I" and k[1] == y and isinstance(w, V) and (mentions(w, x) or isinstance(k[2], V) and mentions(k[2], x)) for k, w in p.st.store.items()):
                return True
    return False


def removed_at(e, key):
    """The event takes `key` out of a table (the table), or None."""
    if e.kind == "del" and e.args and e.args[0] == key:
        return e.recv
    if e.kind == "call" and e.fi is None and e.name in DROP and e.args and e.args[0] == key:
        return e.recv
    return None


def tables(r, add, rem, counted):
    """Registering and removing keep the tables of one kind in step."""
    w = r.walker(opaque=QUIET)
    tabs, counters = set(), set()
    n = 0
    for p in r.paths(add, w):
        if p.kind == "exc":
            continue
        n += 1
        ident = p.val
        st = [(i, e) for i, e in enumerate(p.events) if e.kind == "store" and e.recv is not None and root(e.recv) == SELF]
        mine = [(i, e) for i, e in st if e.args and e.args[0] == ident or mentions(e.recv, ident)]
        r.ob("registers", add.qual, bool(mine) and len(mine) == len(st), "what is registered is not stored under the id returned", st[0][1] if st else add)
        for i, e in mine:
            t = e.recv if e.args[0] == ident else next((x for x in subterms(e.recv) if x.k == "attr" and x.a[0] == SELF and x != ident), None)
            if t is not None:
                tabs.add(t)
        if counted:
            # the id is a counter of the writer, moved on before the lock is let go
            c = ident
            ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == SELF and c == V("attr", SELF, e.name)]
            up = [(i, e) for i, e in ws if not lin_sub(e.val, c)[0] and lin_sub(e.val, c)[1] > 0]
            if ident.k == "call" and any(e.kind == "call" and e.val == ident and e.name in ("next", "__next__") for e in p.events) or ident.k == "app" and ident.a[0] == "next":
                r.ob("id-new", add.qual, True, "", add)
                continue
            r.ob("id-new", add.qual, len(up) == 1 and len(ws) == 1, "the id %s is not moved on exactly once" % show(ident), ws[0][1] if ws else add)
            for i, e in ws:
                counters.add(e.name)
            same = [ids(e) for _, e in mine + ws]
            r.ob("id-new", add.qual, bool(same) and bool(set.intersection(*same)), "the id is taken and moved on in different critical sections", ws[0][1] if ws else add)
    return tabs, counters


def known(p, tabs, x):
    """Whether the path knows `x` to be registered (True / False / None; "never" when it takes a registered entry to be None)."""
    got = {e.val: e for e in p.events if e.kind == "call" and e.fi is None and e.name in ("get", "pop") and e.recv in tabs and e.args and e.args[0] == x}
    res = here = None
    for _, v, pol, _e in assumes(p):
        if v.k == "cmp" and v.a[0] == "in" and v.a[1] == x and v.a[2] in tabs:
            here = res = pol
        elif v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and (v.a[1] in got or v.a[1].k == "item" and v.a[1].a[0] in tabs and v.a[1].a[1] == x):
            res = not pol
            if here and pol:
                return "never"
        elif v in got or v.k == "item" and v.a[0] in tabs and v.a[1] == x:
            res = pol
    return res


def truth(p, v):
    """What the path assumed of a value when it was computed (it may be a condition over a table changed since)."""
    neg = False
    while v.k == "not":
        v, neg = v.a[0], not neg
    for _, x, pol, _e in assumes(p):
        if x == v:
            return pol != neg
    f = p.facts.get(v)
    return None if f is None else f != neg


def removal(r, rem, tabs, closers, prim):
    x = V("sym", rem.params[1])
    flag = V("sym", "call_closer") if "call_closer" in rem.params else None
    for p in r.paths(rem, r.walker(opaque=QUIET, dict_errors=True)):
        if p.kind == "exc":
            if p.exc_name == "KeyError" and known(p, prim, x) is not True:
                r.ob("unknown-refused", rem.qual, False, "removing raises KeyError", next((e for e in reversed(p.events) if e.kind == "raise"), rem))
            continue
        kn = known(p, prim, x)
        if kn == "never":
            continue
        res = bool(cval(p.val)) if is_const(p.val) else truth(p, p.val)
        if res is None:
            r.ob("result", rem.qual, None, "result %s" % show(p.val), rem)
            continue
        outs = [(removed_at(e, x), i, e) for i, e in enumerate(p.events) if removed_at(e, x) is not None]
        closed = [e for e in p.events if e.kind == "call" and e.fi is None and any(e.fn == V("item", t, x) or any(e.fn == y.val for y in p.events if y.kind == "call" and y.name in ("get", "pop") and y.recv == t) for t in closers)]
        r.ob("result", rem.qual, kn is None or kn == res, "removing a%s id reports %s" % (" registered" if kn else "n unknown", "success" if res else "failure"), rem)
        if not res:
            mu = [e for _, e in mutations(p, SELF) if not (e.kind == "call" and e.name == "pop" and len(e.args) > 1)]
            r.ob("unknown-refused", rem.qual, not mu and not closed, "a refused removal changes or closes something", (mu + closed)[0] if mu or closed else rem)
            continue
        r.ob("unknown-refused", rem.qual, kn is not None, "success is reported without knowing that the id was registered", rem)
        for t in sorted(tabs, key=show):
            gone = any(y == t for y, _, _ in outs) or known(p, {t}, x) is False
            r.ob("forgets-all", "%s %s" % (rem.qual, show(t)), gone, "%s keeps its entry for the removed id" % show(t), rem)
        crit = [ids(e) for _, _, e in outs]
        r.ob("removed-atomically", rem.qual, not crit or bool(set.intersection(*map(set, crit))), "the tables are changed in different critical sections", outs[-1][2] if outs else rem)
        if closers:
            none = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and (v.a[1] in {V("item", t, x) for t in closers} or any(y.val == v.a[1] for y in p.events if y.kind == "call" and y.recv in closers))
                       or not pol and v in {V("item", t, x) for t in closers} for _, v, pol, _e in assumes(p))
            want = p.facts.get(flag)
            if none or want is False or closed and want is None and flag is not None:
                r.ob("closer-once", rem.qual, not closed, "the closer is called although %s" % ("there is none" if none else "it may be told not to"), closed[0] if closed else rem)
            else:
                r.ob("closer-once", rem.qual, len(closed) == 1, "the closer is called %d times" % len(closed), closed[-1] if closed else rem)


def position(p, ident):
    """Where in the returned value the id is: '' itself, an int its place in a tuple, None nowhere, '?' somewhere."""
    if p.val is None:
        return None
    if p.val == ident:
        return ""
    if p.val.k == "tup":
        for i, x in enumerate(p.val.a):
            if x == ident:
                return i
    whole = ident.a[0] if ident.k == "item" else ident
    return "?" if contains(p, p.val, ident) or contains(p, p.val, whole) else None


def check(r):
    r.rule("StreamWriter.add_stream and add_queue store everything under the id they return, which is a counter moved on in the same critical section; remove_stream and remove_queue, walked for registered and unknown ids, take the id out of every table the "
           "matching registration stored it in, in one critical section, report success exactly for a registered id, and call the closer exactly once unless told not to; nothing else changes those tables. Every function in the repository "
           "registering a stream, queue or client without handing its id on removes it (and what it stored under the id) exactly once on every path, any call and any point given to other code (yield, await) raising.")
    W = r.cls("StreamWriter")
    pairs = [(r.method("StreamWriter", a), r.method("StreamWriter", b)) for a, b in (("add_stream", "remove_stream"), ("add_queue", "remove_queue"))]
    all_tabs = set()
    roots = {r.method("StreamWriter", "__init__")}
    counters = set()
    for add, rem in pairs:
        tabs, cs = tables(r, add, rem, True)
        counters |= cs
        if not tabs:
            raise Anchor("%s stores nothing" % add.qual)
        closers = {t for t in tabs if "closer" in add.params[2:3] or len(add.params) > 2} & {t for t in tabs if stores_param(r, add, t, add.params[2] if len(add.params) > 2 else None)}
        removal(r, rem, tabs, closers, {t for t in tabs if stores_param(r, add, t, add.params[1])} or tabs - closers)
        all_tabs |= {t.a[1] for t in tabs}
        roots |= {add, rem}
    g = r.graph()
    w = r.walker()
    for fn, evs in g.evs.items():
        for e in evs:
            if e.recv is None or e.name in ("put", "put_nowait") or not (e.kind in ("write", "store", "del", "delattr") or e.kind == "call" and e.fi is None and e.name in MUT):
                continue
            names = {x.a[1] for x in subterms(e.recv) if x.k == "attr"} | ({e.name} if e.kind in ("write", "delattr") else set())
            if not names & (all_tabs | counters):
                continue
            b = next((x.a[0] for x in subterms(e.recv) if x.k == "attr" and x.a[1] in all_tabs), e.recv)
            t = w.ty(b, St())
            c = t[1] if t and t[0] == "c" and not isinstance(t[1], str) else fn.cls if b == SELF else None
            if c is None or not r.p.is_sub(c, W):
                continue
            top = fn
            while top.parent is not None:
                top = top.parent
            r.ob("only-registering", fn.qual, fn in roots or top in roots and fn.parent is None or r.helper_of(fn, roots), "the writer's tables are changed elsewhere", e)
    # owners
    adders = {a: "" for a, _ in pairs}
    removers = {b for _, b in pairs}
    cand = [f for f in r.p.functions if f not in roots and not f.is_lambda]

    def walk(f, adders, removers):
        quals = {x.qual for x in list(adders) + list(removers)}
        raises = lambda e: ["?"] if e.kind == "call" and e.fi is None or isinstance(e.fi, FI) and (e.fi in adders) else ()
        return r.paths(f, r.walker(opaque=QUIET | quals, raises=raises, inline_pred=lambda x, s: r.private(x) or x.parent is not None, try_raise=False))
    changed = True
    owners, left = {}, {}
    shallow = {}
    for f in cand:
        shallow[f] = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
    while changed:
        changed = False
        names_a, names_r = {x.name for x in adders}, {x.name for x in removers}
        for f in cand:
            if f in removers or f in adders or f.cls is not None and f.name.startswith("__"):
                continue
            if shallow[f] & names_r and len(f.params) > 1 and not shallow[f] & names_a:
                ids_ = [V("sym", x) for x in f.params[:2]]
                ps = [p for p in walk(f, adders, removers) if p.kind != "exc"]
                if ps and any(all(any(e.kind == "call" and e.fi in removers and e.args and e.args[0] == x for e in p.events) for p in ps) for x in ids_):
                    removers.add(f)
                    changed = True
            if shallow[f] & names_a and f not in owners and f not in left:
                ps = walk(f, adders, removers)
                pos = set()
                for p in ps:
                    for e in p.events:
                        if e.kind == "call" and e.fi in adders and e.val is not None and e.val.k != "exc" and p.kind != "exc":
                            pos.add(position(p, ident_of(e, adders)))
                if not pos:
                    continue
                if None in pos or len(pos) > 1:
                    owners[f] = ps
                elif "?" in pos:
                    left[f] = ps
                else:
                    adders[f] = pos.pop()
                    changed = True
    # walk the owners again: functions found later to remove are now known
    for f in owners:
        one_owner(r, f, walk(f, adders, removers), adders, removers)
    r.ob("owners", "repository", bool(owners), "nothing registers for a while", "")
    manager(r)
    r.require("id-new", "forgets-all", "unknown-refused", "closer-once", "owner-removes", "client-closed")


def stores_param(r, add, t, param):
    if param is None:
        return False
    return any(e.kind == "store" and e.recv == t and e.val == V("sym", param) for p in r.paths(add, r.walker(opaque=QUIET)) for e in p.events)


def ident_of(e, adders):
    k = adders[e.fi]
    return e.val if k == "" else tup(e.val, k) or V("item", e.val, const(k))


def one_owner(r, f, ps, adders, removers):
    for p in ps:
        for i, e in enumerate(p.events):
            if not (e.kind == "call" and e.fi in adders and e.val is not None and e.val.k != "exc"):
                continue
            x = ident_of(e, adders)
            if p.kind != "exc" and position(p, x) is not None:
                continue
            outs = [y for y in p.events[i:] if y.kind == "call" and y.fi in removers and y.args and y.args[0] == x]
            why = "once its use ended%s" % (" with an exception" if p.kind == "exc" else "")
            r.ob("owner-removes", f.qual, len(outs) == 1, "what it registers with %s is removed %d times %s" % (e.name, len(outs), why), e)
            kept = [y for y in p.events[i:] if y.kind == "store" and y.args and y.args[0] == x and not fresh(y.recv)]
            for y in kept:
                gone = [z for z in p.events[i:] if removed_at(z, x) == y.recv]
                r.ob("owner-forgets", f.qual, bool(gone), "what it stored under the id stays %s" % why, y)


def manager(r):
    """The udp client manager: its own table and sockets follow the writer's."""
    C = r.cls("UdpClientManager")
    rem = r.method("UdpClientManager", "remove_client")
    sid = V("sym", rem.params[1])
    init = r.method("UdpClientManager", "__init__")
    me = SELF.typed(("c", C))
    writer_rem = r.method("StreamWriter", "remove_stream")
    done = False
    for p in r.call(r.walker(opaque=QUIET), V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        hs = [e for e in p.events if e.kind == "write" and e.name == "error_handle"]
        r.ob("client-closed", init.qual, len(hs) == 1, "the manager does not take the writer's errors", init)
        for e in hs[:1]:
            h = e.val
            if h.k not in ("func", "bound"):
                r.ob("client-closed", init.qual, None, "error handler %s" % show(h), e)
                continue
            done = True
            st = p.st.fork()
            for k in [k for k in st.store if k[0] == "A" and k[1] == me]:
                del st.store[k]
            closing(r, h, st, me)
            st.store[("A", me, "closer")] = h
            quals = {writer_rem.qual}
            hq = h.a[0]
            for q in r.call(r.walker(opaque=QUIET | quals, inline_pred=lambda x, s: x is not hq), V("bound", rem, me), [sid], st=st):
                if q.kind == "exc":
                    continue
                ws = [y for y in q.events if y.kind == "call" and y.fi is writer_rem]
                cs = [y for y in q.events if y.kind == "call" and (y.fi is hq or y.fn == V("attr", me, "closer"))]
                ok = [q.facts.get(y.val) for y in ws]
                r.ob("client-removed", rem.qual, len(ws) == 1 and ws[0].arg(0, writer_rem.params[1]) == sid, "the client's stream is unregistered %d times" % len(ws), rem)
                if ok and ok[0] is not False:
                    r.ob("client-closed", rem.qual, len(cs) == 1 and cs[0].args[:1] == (sid,), "a removed client is closed %d times" % len(cs), rem)
    r.ob("client-closed", init.qual, done or None, "no closer found", init)


def closing(r, h, st, me):
    f = h.a[0]
    tab = V("attr", me, "clients")
    x = V("sym", f.params[-1])
    raises = lambda e: ["?"] if e.fi is None and e.name == "close" else ()
    for p in r.call(r.walker(opaque=QUIET, raises=raises, dict_errors=True), h, [x], st=st.fork()):
        kn = known(p, {tab}, x)
        if kn == "never":
            continue
        outs = [e for e in p.events if removed_at(e, x) == tab]
        closes = [e for e in p.events if e.kind == "call" and e.name == "close" and e.recv is not None and over(e.recv, tab) or e.kind == "call" and e.name == "close" and e.recv is not None and any(mentions(e.recv, o.val) for o in outs if o.val is not None)]
        if p.kind == "exc" and p.exc_name == "KeyError":
            r.ob("client-closed", f.qual, False, "closing an unknown client raises KeyError", next((e for e in reversed(p.events) if e.kind == "raise"), f))
            continue
        if kn is False:
            r.ob("client-closed", f.qual, not closes and not outs, "an unknown client is closed", f)
        elif kn:
            recvs = {e.recv for e in closes}
            both = len(recvs) >= 2
            r.ob("client-closed", f.qual, len(outs) == 1 and both, "closing a client %s" % ("leaves it in the table" if not outs else "closes %d of its two handles" % len(recvs)), f)
