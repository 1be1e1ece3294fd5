"""A01: a state machine changes state only after leaving and entering succeed."""
from rules._daemon import *

SELF = V("sym", "self")
CUR = V("attr", SELF, "current_state")
STATES = V("attr", SELF, "states")


def believed(p, v, upto=None):
    """What the path assumed of a call's result."""
    for _, x, pol, _e in assumes(p, upto):
        y, neg = x, False
        while y.k == "not":
            y, neg = y.a[0], not neg
        if y == v:
            return pol != neg
        if y.k == "cmp" and y.a[0] in ("is", "==") and y.a[1] == v and is_const(y.a[2]) and isinstance(cval(y.a[2]), bool):
            return (pol != neg) == cval(y.a[2])
    return None


def check(r):
    r.rule("StateMachine.run is walked with the states' run, leaving and entering answering anything: on every path the running state is asked once what comes next; the current state is written at most once, with that answer, after leaving "
           "(asked of the state that ran, naming the answer) and then entering (asked of the state of that name, naming the state left) were each asked once and accepted; nothing is asked without the step before it having succeeded, or when the answer is the current "
           "state or is not one of the machine's states; when both accept it is written; all of this is one critical section; what is returned is the state that ran and the state current afterwards. Nothing else writes the current state. "
           "State.run, leaving and entering ask their callback exactly once, if there is one, and return its answer.")
    r.assume("The callbacks of a state do not write the machine's current state themselves.")
    f = r.method("StateMachine", "run")
    ops = {n: r.method("State", n) for n in ("run", "leaving", "entering")}
    quals = {x.qual for x in ops.values()} | {x.qual for x in r.p.functions if x.name in ops and x.cls is not None and r.p.is_sub(x.cls, r.cls("State"))}
    quiet = QUIET | {x.qual for x in r.p.functions if x.cls is not None and x.cls.name == "ChannelGroup" and x.parent is None}
    n = took = 0
    for p in r.paths(f, r.walker(opaque=quiet | quals, assert_fork=True)):
        evs = p.events
        calls = {k: [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.name == k and (e.fi is m or e.fi is None and e.recv is not None and mentions(e.recv, STATES))] for k, m in ops.items()}
        wr = [(i, e) for i, e in enumerate(evs) if e.kind == "write" and e.recv == SELF and e.name == "current_state"]
        runs, lv, en = calls["run"], calls["leaving"], calls["entering"]
        r.ob("asked-once", f.qual, len(runs) <= 1 and len(lv) <= 1 and len(en) <= 1, "a state is asked more than once in one run", (runs[1:] + lv[1:] + en[1:])[0][1] if len(runs) > 1 or len(lv) > 1 or len(en) > 1 else f)
        if len(runs) != 1:
            r.ob("runs-current", f.qual, p.kind == "exc" and not runs and not wr, "a run which runs %d states" % len(runs), f)
            continue
        ri, re_ = runs[0]
        n += 1
        cur = V("item", STATES, CUR)
        r.ob("runs-current", f.qual, re_.recv == cur or re_.recv.k == "call" and any(e.val == re_.recv and e.name == "get" and e.recv == STATES and e.args[:1] == (CUR,) for e in evs), "the state which runs is %s" % show(re_.recv), re_)
        ran, new = re_.recv, re_.val
        memb = [(j, pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "in" and v.a[1] == new and v.a[2] == STATES] + \
               [(j, not pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == V("item", STATES, new) and is_none(v.a[2])] + \
               [(j, not pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and any(e.kind == "call" and e.name == "get" and e.recv == STATES and e.args[:1] == (new,) and e.val == v.a[1] for e in evs)]
        same = [(j, pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "==" and {v.a[1], v.a[2]} == {new, CUR}] + \
               [(j, pol) for j, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "==" and new in v.a[1:] and any(x.k == "attr" and x.a[1] == "name" and x.a[0] == ran for x in v.a[1:])]
        cand = {V("item", STATES, new)} | {e.val for e in evs if e.kind == "call" and e.name == "get" and e.recv == STATES and e.args[:1] == (new,)}
        for i, e in lv:
            r.ob("leaves-current", f.qual, e.recv == ran and e.arg(0) == new and i > ri, "leaving is asked of %s naming %s" % (show(e.recv), show(e.arg(0))), e)
            r.ob("asked-for-change", f.qual, any(not pol and j < i for j, pol in same), "leaving is asked although the state may stay the same", e)
            r.ob("asked-known", f.qual, any(pol and j < i for j, pol in memb), "leaving is asked for a state the machine may not have", e)
        for i, e in en:
            r.ob("enters-requested", f.qual, e.recv in cand and e.arg(0) in (CUR, V("attr", ran, "name")), "entering is asked of %s naming %s" % (show(e.recv), show(e.arg(0))), e)
            ok = any(j < i and believed(p, x.val, i) for j, x in lv)
            r.ob("enters-after-leaving", f.qual, ok, "entering is asked without leaving having succeeded", e)
        for i, e in wr:
            took += 1
            r.ob("changes-to-requested", f.qual, e.val == new or e.val.k == "attr" and e.val.a[1] == "name" and e.val.a[0] in cand, "the current state becomes %s" % show(e.val), e)
            ok = any(j < i and believed(p, x.val, i) for j, x in lv) and any(j < i and believed(p, x.val, i) for j, x in en)
            r.ob("changes-after-both", f.qual, ok, "the current state changes without leaving and entering having succeeded", e)
        r.ob("changes-once", f.qual, len(wr) <= 1, "the current state is written %d times" % len(wr), wr[-1][1] if wr else f)
        sect = [ids(e) for _, e in runs + lv + en + wr]
        r.ob("one-step", f.qual, bool(set.intersection(*map(set, sect))), "deciding, leaving, entering and changing are not one critical section", (runs + lv + en + wr)[-1][1])
        if p.kind == "exc":
            continue
        both = [x for _, x in en if believed(p, x.val) is not False and any(believed(p, y.val) is not False for _, y in lv)]
        r.ob("accepted-changes", f.qual, not both or bool(wr), "an accepted change does not happen", both[0] if both else f)
        if any(not pol for _, pol in same) and any(pol for _, pol in memb):
            r.ob("change-asked", f.qual, bool(lv), "a change is requested but leaving is not asked", f)
            r.ob("change-asked", f.qual, not any(believed(p, x.val) for _, x in lv) or bool(en), "the current state is left but the next is not asked", f)
        # the result
        a, b = tup(p.val, 0), tup(p.val, 1)
        if a is None or b is None:
            r.ob("reports", f.qual, None, "result %s" % show(p.val), f)
            continue
        now = cand | {V("item", STATES, V("attr", c, "name")) for c in cand} if wr else {ran, cur}
        r.ob("reports", f.qual, a == ran and b in now, "a run reports (%s, %s)" % (show(a), show(b)), f)
    r.ob("runs-current", f.qual, n > 0, "no state ever runs", f)
    r.ob("accepted-changes", f.qual, took > 0, "the state never changes", f)
    # other writers
    g = r.graph()
    w = r.walker()
    from vsa.walk import St
    C = r.cls("StateMachine")
    own = {f, r.method("StateMachine", "__init__")}
    for fn, evs in g.evs.items():
        for e in evs:
            if e.kind in ("write", "delattr") and e.name == "current_state" and e.recv is not None:
                t = w.ty(e.recv, St())
                c = t[1] if t and t[0] == "c" and not isinstance(t[1], str) else fn.cls if e.recv == SELF else None
                if c is not None and r.p.is_sub(c, C):
                    r.ob("only-writer", fn.qual, fn in own or r.helper_of(fn, own), "the current state is written elsewhere", e)
    # construction enters the initial state
    init = r.method("StateMachine", "__init__")
    for p in r.paths(init, r.walker(opaque=quiet | quals, assert_fork=True)):
        if p.kind == "exc":
            continue
        cs = [e for e in p.events if e.kind == "call" and e.name == "entering"]
        ok = [e for e in cs if believed(p, e.val)]
        r.ob("starts-entered", init.qual, len(cs) == 1 and len(ok) == 1, "a machine starts without its initial state having been entered", cs[0] if cs else init)
    # the states
    for k, m in ops.items():
        cb = V("attr", SELF, k + "_fn")
        for p in r.paths(m, r.walker(opaque=quiet)):
            if p.kind == "exc":
                continue
            cs = [e for e in p.events if e.kind == "call" and e.fi is None and (e.fn == cb or e.recv == SELF and e.name == cb.a[1])]
            none = any((v.k == "cmp" and v.a[0] == "is" and v.a[1] == cb and is_none(v.a[2])) and pol or v == cb and not pol for _, v, pol, _e in assumes(p))
            if none:
                dflt = p.val == V("attr", SELF, "name") if k == "run" else p.val == TRUE
                r.ob("callback", m.qual, not cs and dflt, "without a callback %s answers %s" % (k, show(p.val)), m)
            else:
                asked = [e for e in cs if p.val == e.val or p.val.k == "app" and p.val.a[0] == "bool" and p.val.a[1] == e.val]
                r.ob("callback", m.qual, len(cs) == 1 and len(asked) == 1, "the callback is asked %d times and %s answers %s" % (len(cs), k, show(p.val)), cs[-1] if cs else m)
                want = [V("sym", x) for x in m.params[1:]]
                for e in cs:
                    r.ob("callback", m.qual, list(e.args) == want, "the callback is given %s" % ", ".join(show(x) for x in e.args), e)
    r.require("runs-current", "changes-to-requested", "changes-after-both", "enters-after-leaving", "one-step", "reports", "callback", "only-writer", "asked-known")
