"""X02: waiting for a command's result never reports an unconfirmed success."""
from rules._daemon import *
from rules.d05 import bounded, called

WAITS = {"acquire", "wait", "get", "result", "join"}


def late(v):
    return v is not None and v.k == "call" and str(v.a[0]).startswith("late:")


def waited(v):
    return v is not None and v.k == "call" and v.a[0] in WAITS


def pol_of(p, v):
    got = None
    for _, x, pol, _e in assumes(p):
        if x == v:
            got = pol
        elif x.k == "cmp" and x.a[0] in ("is", "==") and x.a[1] == v and is_const(x.a[2]) and isinstance(cval(x.a[2]), bool):
            got = pol if cval(x.a[2]) else not pol
    return got


def timed(e):
    if e.name == "wait" or e.name == "result" or e.name == "join":
        t = e.arg(0, "timeout")
        return t is not None and is_const(t) and cval(t) is not None
    t = e.arg(1, "timeout")
    if e.name == "acquire" and t is not None and is_const(t) and isinstance(cval(t), (int, float)) and cval(t) < 0:
        return False
    return t is not None and not is_none(t) or bounded(e)


def check(r):
    r.rule("Executing a command queues it once with a callback, waits with a time bound for the signal which the callback gives after storing the handler's status, and on every path the status returned is false, "
           "or the outcome of that wait, or known true only together with it.")
    f = r.method("CommandQueueDaemon", "execute")
    enq = r.method("CommandQueueDaemon", "enqueue")
    w = r.walker(opaque=QUIET | {"CommandQueueDaemon.enqueue"})
    cbs, n, names = {}, 0, set()
    for p in r.paths(f, w):
        q = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fi is enq or e.fi is None and e.name in ("put", "put_nowait") and e.recv is not None and e.recv.k == "attr")]
        r.ob("queued-once", f.qual, len(q) == 1, "the command is queued %d times" % len(q), f)
        if not q:
            continue
        i0, e0 = q[0]
        r.ob("queued-once", f.qual, any(a == V("sym", f.params[1]) or mentions(a, V("sym", f.params[1])) for a in list(e0.args) + list(e0.kw.values())), "another command is queued", e0)
        cb = [x for a in list(e0.args) + list(e0.kw.values()) for x in subterms(a) if x.k in ("func", "bound", "lambda")]
        if not cb:
            r.ob("confirmed", f.qual, False if all(is_none(a) or not mentions(a, NONE) for a in e0.args[1:]) and not (p.val is not None and tup(p.val, 0) is not None and is_const(tup(p.val, 0)) and not cval(tup(p.val, 0))) else None,
                 "no reply can be received", e0)
            continue
        cbs.setdefault(cb[0], p.st)
        ws = [(i, e) for i, e in enumerate(p.events) if i > i0 and e.kind == "call" and e.fi is None and e.name in WAITS and e.recv is not None]
        for _, e in ws:
            r.ob("bounded", f.qual, timed(e), "the wait for the reply has no time limit", e)
        if p.kind == "exc":
            continue
        n += 1
        s = tup(p.val, 0)
        if s is None and p.val is not None and waited(p.val):
            r.ob("confirmed", f.qual, None, "the reply is passed on as %s" % show(p.val), f)
            continue
        good = [e for _, e in ws if e.val is not None and e.val.k != "exc" and (pol_of(p, e.val) is True or e.name == "get")]
        if s is None:
            r.ob("confirmed", f.qual, None, "result is %s" % show(p.val), f)
        elif is_const(s) and not cval(s) or pol_of(p, s) is False:
            r.ob("confirmed", f.qual, True, "", f)
        elif is_const(s):
            ok = bool(good) and any(late(v) and pol_of(p, v) is True for _, v, _p, _e in assumes(p))
            r.ob("confirmed", f.qual, ok, "success is reported without a reply of success", f)
            names |= {v.a[0][5:] for _, v, pol, _e in assumes(p) if late(v) and pol}
        elif waited(s):
            # the outcome of the wait, with the stored status known true
            lt = [v for _, v, pol, _e in assumes(p) if late(v) and pol]
            r.ob("confirmed", f.qual, bool(lt), "the reply's status is not looked at", f)
            names |= {v.a[0][5:] for v in lt}
        elif late(s):
            names.add(s.a[0][5:])
            r.ob("confirmed", f.qual, bool(good) and any(s.a[1] > e.val.a[1] for e in good), "the reply's status is reported although it may not have come in time", f)
        elif s.k == "item" and waited(s.a[0]):
            r.ob("confirmed", f.qual, True, "", f)
        else:
            lt = [x for x in subterms(s) if late(x)]
            ws_ = [x for x in subterms(s) if waited(x)]
            r.ob("confirmed", f.qual, True if s.k == "app" and s.a[0] == "and" and lt and (ws_ or good) else None, "status is %s" % show(s), f)
            names |= {v.a[0][5:] for v in lt}
    sets = 0
    for cb, st in cbs.items():
        fi = cb.a[0]
        ps = fi.params if not fi.is_lambda else fi.params
        st_, msg = V("sym", "$status"), V("sym", "$message")
        for p in r.call(w, cb, [st_, msg], st=st):
            if p.kind == "exc":
                continue
            sig = [i for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.name in ("release", "set", "put", "set_result", "notify", "notify_all")]
            r.ob("signalled", f.qual, bool(sig), "the reply does not end the wait", fi)
            for nm in names:
                wr = [(i, e) for i, e in enumerate(p.events) if e.kind == "nlwrite" and e.name == nm]
                ok = bool(wr) and wr[-1][1].val in (st_, V("app", "bool", st_)) and all(e.val in (st_, V("app", "bool", st_)) for _, e in wr)
                r.ob("own-status", f.qual, ok, "the status stored is %s" % (show(wr[-1][1].val) if wr else "not the reply's"), fi)
                if wr and sig:
                    r.ob("stored-first", f.qual, max(i for i, _ in wr) < min(sig), "the wait ends before the reply is stored", fi)
                sets += 1
    r.ob("reaches", f.qual, n > 0, "execute never returns", f)
    r.require("queued-once", "confirmed", "bounded", "reaches")
