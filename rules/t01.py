"""T01: managed time advances by scaled real time for every follower."""
from rules._daemon import *
from vsa.walk import St

SELF = V("sym", "self")
TIME, LAST, SCALE, FOLLOW = (V("attr", SELF, x) for x in ("time", "last_time_eval", "scalar", "slaves"))


def prod(v):
    """(factors) of a product, either order."""
    return {v.a[1], v.a[2]} if v is not None and v.k == "bin" and v.a[0] == "*" else None


def zero(v):
    return is_const(v) and not isinstance(cval(v), (str, bool)) and cval(v) == 0


def sign(p, s, upto=None):
    """Set of {-,0,+} left open for `s` by what the path assumed."""
    left = {"-", "0", "+"}
    for _, v, pol, _e in assumes(p, upto):
        t = None
        if v.k == "cmp" and v.a[0] == "<" and v.a[1] == s and zero(v.a[2]):
            t = {"-"}
        elif v.k == "cmp" and v.a[0] == "<" and zero(v.a[1]) and v.a[2] == s:
            t = {"+"}
        elif v.k == "cmp" and v.a[0] == "<=" and v.a[1] == s and zero(v.a[2]):
            t = {"-", "0"}
        elif v.k == "cmp" and v.a[0] == "<=" and zero(v.a[1]) and v.a[2] == s:
            t = {"0", "+"}
        elif v.k == "cmp" and v.a[0] == "==" and s in v.a[1:] and any(zero(x) for x in v.a[1:]):
            t = {"0"}
        elif v == s:
            t = {"-", "+"}
        if t is not None:
            left &= t if pol else {"-", "0", "+"} - t
    return left


def check(r):
    r.rule("Every path of TimeKeeper.iteration: the real clock is read once; the keeper's time is advanced once, by (that reading minus the previous one) times the scale; that reading becomes the previous one, in the same critical section; afterwards every "
           "follower is set exactly once to the keeper's time, read in the same critical section as it is handed out, no follower is passed over. add_slave sets the follower to the keeper's time and lists it, in one critical section. scale writes the scale "
           "exactly for scales that are not negative. sleep sleeps once, dividing by the scale only where that very reading of it is positive. advance_time, set_time: the sum, the value. A daemon given a keeper registers with it and sleeps through it.")
    r.assume("The real-time and sleep functions given to a keeper do not write the keeper's attributes.")
    K = r.cls("TimeKeeper")
    w = r.walker(track_reads=True, assert_fork=True)
    C = r.cls("TimeEntity")

    def times(p, obj=SELF):
        return [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "time" and e.recv == obj]

    # ticks
    f = r.method("TimeKeeper", "iteration")
    n = 0
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        evs = p.events
        clk = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.fi is None and (e.name == "time_function" and e.recv == SELF or e.fn == V("attr", SELF, "time_function"))]
        r.ob("reads-clock-once", f.qual, len(clk) == 1, "the real clock is read %d times in one tick" % len(clk), clk[-1][1] if clk else f)
        if len(clk) != 1:
            continue
        now = clk[0][1].val
        adv, lst = times(p), [(i, e) for i, e in enumerate(evs) if e.kind == "write" and e.name == "last_time_eval" and e.recv == SELF]
        r.ob("advances-once", f.qual, len(adv) == 1, "time is advanced %d times in one tick" % len(adv), adv[-1][1] if adv else f)
        r.ob("remembers-reading", f.qual, len(lst) == 1 and lst[0][1].val == now, "the reading remembered for the next tick is %s" % (show(lst[-1][1].val) if lst else "the old one"), lst[-1][1] if lst else f)
        if len(adv) != 1 or len(lst) != 1:
            continue
        n += 1
        e = adv[0][1]
        terms, k = lin_sub(e.val, TIME)
        ok = None
        elapsed = V("bin", "-", now, LAST)
        if k == 0 and len(terms) == 1:
            (t, c), = terms.items() if isinstance(terms, dict) else terms
            pr = prod(t)
            if pr is not None:
                ok = c == 1 and SCALE in pr and any(lin_eq(x, elapsed) for x in pr)
                if not ok and c == 1 and SCALE in pr and any(mentions(x, now) and mentions(x, LAST) for x in pr) and not any(x.k == "bin" for x in pr):
                    ok = None
            else:
                ok = None if all(mentions(t, x) for x in (now, LAST, SCALE)) else False
        elif k == 0 and len(terms) == 2:
            items = dict(terms.items() if isinstance(terms, dict) else terms)
            ok = any(items.get(t) == 1 and prod(t) == {now, SCALE} for t in items) and any(items.get(t) == -1 and prod(t) == {LAST, SCALE} for t in items)
        else:
            ok = False
        r.ob("advances-by-scaled", f.qual, ok, "time becomes %s" % show(e.val), e)
        same = ids(clk[0][1]) & ids(e) & ids(lst[0][1])
        r.ob("tick-atomic", f.qual, bool(same), "reading the clock, advancing and remembering are not one critical section", lst[0][1])
        # followers
        loops = {}
        for i, x in enumerate(evs):
            if x.kind == "iter" and x.args and mentions(x.args[0], FOLLOW) and x.val is not None:
                loops.setdefault(x.val, []).append(i)
        for i, x in enumerate(evs):
            if x.recv is not None and x.recv.k == "item" and x.recv.a[0] == FOLLOW and (x.kind == "write" and x.name == "time" or x.kind == "call" and x.name == "set_time"):
                loops.setdefault(x.recv, []).append(i)
        r.ob("every-follower", f.qual, not left_early(p), "followers are passed over", f)
        cur = e.val
        for s, at in loops.items():
            if s.k != "elem" and root(s) == SELF and s.k not in ("item",):
                continue
            sets = [(i, x) for i, x in enumerate(evs) if x.recv == s and (x.kind == "write" and x.name == "time" or x.kind == "call" and x.name == "set_time" and x.fi is None)]
            r.ob("follower-set-once", f.qual, len(sets) == 1, "a follower is given the time %d times in one tick" % len(sets), sets[-1][1] if sets else f)
            for i, x in sets:
                v = x.val if x.kind == "write" else x.arg(0)
                rd = [y for y in evs[:i] if y.kind == "read" and y.recv == SELF and y.name == "time"]
                r.ob("follower-gets-current", f.qual, v == cur and i > adv[0][0], "a follower is given %s" % show(v), x)
                own = {j for l, j in x.locks if l == V("attr", SELF, "lock")}
                r.ob("follower-not-stale", f.qual, bool(own) and (not rd or bool(own & ids(rd[-1]))), "a follower is given a time which may be out of date", x)
        if not loops:
            none = any(v == FOLLOW and not pol or v.k == "app" and v.a[0] == "more" and v.a[1] == FOLLOW and not pol or v.k == "cmp" and mentions(v, FOLLOW) for _, v, pol, _e in assumes(p)) or \
                any(mentions(k2, FOLLOW) for k2 in p.facts)
            r.ob("every-follower", f.qual, none, "a tick does not reach the followers", f)
    r.ob("advances-by-scaled", f.qual, n > 0, "time never advances", f)
    # adding
    f = r.method("TimeKeeper", "add_slave")
    who = V("sym", f.params[1])
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        sets = [e for e in p.events if e.recv == who and (e.kind == "write" and e.name == "time" or e.kind == "call" and e.name == "set_time")]
        apps = [e for e in p.events if e.kind == "call" and e.recv == FOLLOW and e.name in MUT or e.kind == "write" and e.recv == SELF and e.name == "slaves"]
        listed = [e for e in apps if e.name in ("append", "add", "insert") and who in e.args]
        known = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == who and v.a[2] == FOLLOW and pol for _, v, pol, _e in assumes(p))
        r.ob("added-listed", f.qual, len(apps) == len(listed) == 1 or known and not apps, "an added follower is listed %d times" % len(listed), f)
        r.ob("added-gets-current", f.qual, len(sets) == 1 and (sets[0].val if sets[0].kind == "write" else sets[0].arg(0)) == TIME, "an added follower is not given the current time once", sets[-1] if sets else f)
        if sets and listed:
            own = {j for l, j in sets[0].locks if l == V("attr", SELF, "lock")} & ids(listed[0])
            rd = [y for y in p.events if y.kind == "read" and y.recv == SELF and y.name == "time"]
            r.ob("added-atomic", f.qual, bool(own) and (not rd or bool(own & ids(rd[-1]))), "the follower's time and its listing are not one critical section: a tick in between is missed", listed[0])
    # scale
    f = r.method("TimeKeeper", "scale")
    s = V("sym", f.params[1])
    for p in r.paths(f, w):
        wr = [e for e in p.events if e.kind == "write" and e.recv == SELF and e.name == "scalar"]
        sg = sign(p, s)
        r.ob("scale-not-negative", f.qual, not (wr and "-" in sg), "a negative scale may be taken", wr[0] if wr else f)
        if sg and p.kind != "exc":
            r.ob("scale-taken", f.qual, bool(wr) and wr[-1].val == s or sg == {"-"} and not wr, "a scale that is not negative is not taken" if not wr else "the scale becomes %s" % show(wr[-1].val), wr[-1] if wr else f)
            if p.kind == "exc":
                r.ob("scale-ignored", f.qual, False, "a scale is refused with an error", f)
    # sleep
    f = r.method("TimeKeeper", "sleep")
    amt = V("sym", f.params[1])
    for p in r.paths(f, w):
        cs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.name == "sleep_function" and e.recv == SELF or e.fn == V("attr", SELF, "sleep_function"))]
        if p.kind == "exc":
            r.ob("sleeps-once", f.qual, False, "sleeping fails", f)
            continue
        r.ob("sleeps-once", f.qual, len(cs) == 1, "sleeping sleeps %d times" % len(cs), cs[-1][1] if cs else f)
        for i, e in cs:
            v = e.arg(0)
            reads = [x for x in p.events[:i] if x.kind == "read" and x.recv == SELF and x.name == "scalar"]
            sg = sign(p, SCALE, i)
            # a value divided by the scale
            div = v is not None and v.k == "bin" and v.a[0] == "/"
            if div:
                r.ob("sleep-scaled", f.qual, v.a[1] == amt and v.a[2] == SCALE, "sleeping sleeps %s" % show(v), e)
                r.ob("sleep-every-scale", f.qual, sg <= {"+", "-"}, "the scale divided by may be zero", e)
                locked = bool(reads) and bool(set.intersection(*(ids(x) for x in reads)))
                r.ob("sleep-every-scale", f.qual, len(reads) <= 1 or locked, "the scale tested and the scale divided by are two readings: it may become zero in between", reads[-1] if reads else e)
            else:
                r.ob("sleep-scaled", f.qual, (v == amt and "+" not in sg) or (None if v is not None and v.k == "call" else False), "sleeping sleeps %s" % show(v), e)
    # the building blocks
    f = r.method("TimeEntity", "advance_time")
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        wr = times(p)
        r.ob("advance-adds", f.qual, len(wr) == 1 and bool(lin_eq(wr[0][1].val, V("bin", "+", TIME, V("sym", f.params[1])))), "advancing by an amount gives %s" % (show(wr[-1][1].val) if wr else "no change"), wr[-1][1] if wr else f)
        if wr:
            rd = [y for y in p.events if y.kind == "read" and y.recv == SELF and y.name == "time"]
            r.ob("advance-atomic", f.qual, bool(ids(wr[-1][1])) and all(ids(y) & ids(wr[-1][1]) for y in rd), "advancing is not one critical section", wr[-1][1])
    f = r.method("TimeEntity", "set_time")
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        wr = times(p)
        r.ob("set-sets", f.qual, len(wr) == 1 and wr[0][1].val == V("sym", f.params[1]), "setting the time gives %s" % (show(wr[-1][1].val) if wr else "no change"), wr[-1][1] if wr else f)
    f = r.method("TimeEntity", "get_time")
    for p in r.paths(f, w):
        r.ob("get-gets", f.qual, p.kind != "exc" and p.val == TIME, "the time reported is %s" % show(p.val), f)
    # start
    init = r.method("TimeKeeper", "__init__")
    sc = V("sym", init.params[3]) if len(init.params) > 3 else None
    for p in r.paths(init, r.walker(assert_fork=True, inline_pred=lambda fi, st: fi.name == "__init__")):
        if p.kind == "exc":
            continue
        t, l = p.st.store.get(("A", SELF, "time")), p.st.store.get(("A", SELF, "last_time_eval"))
        r.ob("starts-now", init.qual, t is not None and t == l and t.k == "call", "a keeper starts at %s, measured from %s" % (show(t), show(l)), init)
        if sc is not None:
            r.ob("starts-scaled", init.qual, p.st.store.get(("A", SELF, "scalar")) == sc and "-" not in sign(p, sc) , "a keeper starts with the scale %s" % show(p.st.store.get(("A", SELF, "scalar"))), init)
    # who writes
    g = r.graph()
    wk = r.walker()
    own = {"last_time_eval": {init, r.method("TimeKeeper", "iteration")}, "scalar": {init, r.method("TimeKeeper", "scale")}, "slaves": {init, r.method("TimeKeeper", "add_slave")}}
    own["time"] = {init, r.method("TimeKeeper", "iteration")} | {r.method("TimeEntity", x) for x in ("__init__", "advance_time", "set_time")}
    for fn, evs in g.evs.items():
        for e in evs:
            nm = None
            if e.kind in ("write", "delattr") and e.name in own:
                nm, o = e.name, e.recv
            elif e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "slaves" and (e.kind in ("store", "del") or e.kind == "call" and e.fi is None and e.name in MUT):
                nm, o = "slaves", e.recv.a[0]
            if nm is None or o is None:
                continue
            t = wk.ty(o, St())
            c = t[1] if t and t[0] == "c" and not isinstance(t[1], str) else fn.cls if o == SELF else None
            if c is not None and (r.p.is_sub(c, K) or nm == "time" and r.p.is_sub(c, C)):
                r.ob("only-writers", fn.qual, fn in own[nm] or r.helper_of(fn, own[nm]), "%s of a keeper is changed elsewhere" % nm, e)
    # daemons
    f = r.method("DaemonBase", "__init__")
    tk = V("sym", "time_keeper")
    for p in r.paths(f, r.walker(assert_fork=False, inline_pred=lambda fi, st: fi.name == "__init__")):
        if p.kind == "exc":
            continue
        none = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == tk and is_none(v.a[2]) and pol or v == tk and not pol for _, v, pol, _e in assumes(p))
        cs = [e for e in p.events if e.kind == "call" and e.name == "add_slave" and e.recv == tk]
        fn = p.st.store.get(("A", SELF, "function"))
        sl = p.st.store.get(("I", fn, const("sleep"))) if fn is not None else None
        if none:
            r.ob("unmanaged", f.qual, not cs, "a daemon without a keeper registers with one", f)
            continue
        r.ob("registers", f.qual, len(cs) == 1 and cs[0].arg(0) == SELF, "a daemon given a keeper registers with it %d times" % len(cs), cs[-1] if cs else f)
        r.ob("sleeps-managed", f.qual, sl is not None and sl in (V("attr", tk, "sleep"),) or sl is not None and sl.k == "bound" and sl.a[1] == tk, "a daemon given a keeper sleeps through %s" % show(sl), f)
    r.require("advances-by-scaled", "tick-atomic", "follower-gets-current", "follower-not-stale", "added-atomic", "scale-taken", "sleep-scaled", "advance-adds", "registers", "sleeps-managed", "only-writers")
