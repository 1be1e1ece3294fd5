"""E05: channels are emitted exactly when due."""
from rules._daemon import *

SELF = V("sym", "self")


def due(p, upto, t, last, rate):
    """What the path established by event `upto`: True (t >= last + rate), False, or None when neither."""
    want = lin(V("bin", "-", t, V("bin", "+", last, rate)))
    neg = lin(V("bin", "-", V("bin", "+", last, rate), t))
    got = None
    for _, v, pol, _e in assumes(p, upto):
        if v.k != "cmp" or v.a[0] not in ("<", "<=", "=="):
            continue
        d = lin_sub(v.a[1], v.a[2])
        if v.a[0] == "<" and d == want:        # t < last + rate
            got = not pol
        elif v.a[0] == "<=" and d == neg:      # last + rate <= t
            got = pol
        elif d in (want, neg) or mentions(v, last) and mentions(v, t):
            strict = v.a[0] == "<" and d == neg and pol or v.a[0] == "<=" and d == want and not pol    # t > last + rate
            if strict:
                got = "late" if got is None else got
            elif v.a[0] == "==" and pol and d in (want, neg):
                got = True
            elif d not in (want, neg):
                plainly = d is not None and set(d[0]) <= {t, last, rate}
                got = ("wrong" if plainly else "other") if got is None else got
            elif got is None:
                got = "late-no"
    return got


def check(r):
    r.rule("Every path of Channel.emit which returns the value has established that the time given is at least the last emission plus the rate, returns the current value and sets the time of last emission to the time given; every other path has established the opposite, "
           "returns None and writes nothing. Framing asks every scheduled channel exactly once, with the time given, and leaves out only what emit reported as None (identity, not truth). Nothing else emits channels or changes the time of last emission.")
    emit = r.method("Channel", "emit")
    t = V("sym", emit.params[1])
    data, last, rate = (V("attr", SELF, x) for x in ("data", "last_emitted", "rate"))
    yes = no = 0
    for p in r.paths(emit, r.walker(opaque=QUIET)):
        if p.kind == "exc":
            r.ob("emit-total", emit.qual, False, "emitting raises", emit)
            continue
        wr = [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == SELF]
        upto = wr[0][0] if wr else None
        d = due(p, upto, t, last, rate)
        sure = None if d in ("other", None) else d is True
        if is_none(p.val) or p.val is None:
            no += 1
            r.ob("not-due-nothing", emit.qual, not wr, "a channel which emits nothing changes %s" % (wr[0][1].name if wr else ""), wr[0][1] if wr else emit)
            r.ob("due-emits", emit.qual, (None if d == "other" else d is False), "a channel emits nothing although it may be due (%s)" % (
                "exactly one rate after its last emission" if d == "late-no" else "no comparison of the time with its last emission"), emit)
        else:
            yes += 1
            r.ob("emits-value", emit.qual, p.val == data or (None if p.val.k in ("call", "item") else False), "a channel emits %s" % show(p.val), emit)
            r.ob("emits-when-due", emit.qual, (True if d in (True, "late") else None if d == "other" else False), "a channel emits without being due", emit)
            ls = [e for _, e in wr if e.name == "last_emitted"]
            r.ob("time-updated", emit.qual, len(ls) == 1 and ls[0].val == t, "the time of last emission becomes %s" % (show(ls[0].val) if ls else "nothing"), ls[0] if ls else emit)
            r.ob("only-time-updated", emit.qual, len(wr) == len(ls), "emitting changes %s" % ", ".join(e.name for _, e in wr if e.name != "last_emitted"), wr[0][1] if wr else emit)
    if not yes or not no:
        r.ob("emits-when-due", emit.qual, False, "a channel %s emits" % ("never" if not yes else "always"), emit)
    # framing
    f = r.method("ChannelFramer", "build_data_frames")
    tm = V("sym", f.params[1])
    src = V("attr", SELF, "channels")
    w = r.walker(opaque=QUIET | {"Channel.emit", "ChannelFrame.add", "Frame.finalize", "Framer.new_frame", "Registry.get_id", "Registry.get_item", "ChannelRegistry.get_channel_type"}, loop=(0, 1, 2))
    n = 0
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        its = [e for e in p.events if e.kind == "iter" and e.args and mentions(e.args[0], src)]
        ems = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fi is emit or e.name == "emit")]
        r.ob("all-channels", f.qual, not left_early(p), "framing stops before all channels were asked", f)
        per = {}
        for i, e in ems:
            per.setdefault(e.recv, []).append(e)
            n += 1
            r.ob("asked-with-time", f.qual, e.arg(0, emit.params[1]) == tm, "a channel is asked at the time %s" % show(e.arg(0, emit.params[1])), e)
        for it in its:
            if it.val is not None and it.val.k == "elem":
                r.ob("asked-once", f.qual, len(per.get(it.val, [])) == 1, "a scheduled channel is asked %d times" % len(per.get(it.val, [])), it)
        for i, e in ems:
            none = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == e.val and is_none(v.a[2])]
            truth = [pol for _, v, pol, _e in assumes(p) if v == e.val or v.k == "app" and v.a[0] == "bool" and v.a[1] == e.val]
            other = [v for _, v, pol, _e in assumes(p) if v.k == "cmp" and v != e.val and mentions(v, e.val) and not (v.a[0] == "is" and v.a[1] == e.val)]
            adds = [x for x in p.events[i:] if x.kind == "call" and x.name == "add" and x.fi is not None and any(a == e.val for a in list(x.args) + list(x.kw.values()))]
            if adds:
                r.ob("due-framed", f.qual, True, "", e)
                continue
            comp = any(x.kind == "store" or x.kind == "call" and x.name in ("append", "add") for x in p.events[i:] if any(mentions(a, e.val) for a in x.args if isinstance(a, V)) or isinstance(x.val, V) and x.kind == "store" and mentions(x.val, e.val))
            if none and none[-1]:
                r.ob("due-framed", f.qual, True, "", e)
            elif truth and truth[-1] is False or other:
                r.ob("due-framed", f.qual, False, "a due channel whose value is false or zero is left out" if not other else "a due channel is left out depending on its value", e)
            else:
                r.ob("due-framed", f.qual, None if comp else False, "a due channel is not framed", e)
    r.ob("asks", f.qual, n > 0 or None, "no channel is asked", f)
    # who emits, who sets the time
    lock_ok = {f}
    for c in sorted(r.named_callers(emit), key=lambda x: x.qual):
        top = c
        while top.parent is not None:
            top = top.parent
        uses = [e for e in r.graph().evs.get(c, []) if e.kind == "call" and (e.fi is emit or e.fi is None and e.name == "emit" and c.module.name.startswith("vtelem.channel"))]
        if uses:
            r.ob("only-framing-emits", c.qual, top in lock_ok or r.helper_of(top, lock_ok), "channels are emitted outside framing", uses[0])
    init = r.method("Channel", "__init__")
    for fn, evs in r.graph().evs.items():
        for e in evs:
            if e.kind in ("write", "delattr") and e.name == "last_emitted":
                r.ob("only-emit-sets-time", fn.qual, fn in (emit, init) or r.helper_of(fn, {emit, init}), "the time of last emission is changed", e)
    # dispatch hands on its own time
    d = r.method("ChannelEnvironment", "dispatch")
    w = r.walker(opaque=QUIET | {"ChannelFramer.build_data_frames", "ChannelFramer.build_event_frames"}, loop=(0, 1), while_max=1)
    for p in r.paths(d, w):
        if p.kind == "exc":
            continue
        cs = [e for e in p.events if e.kind == "call" and e.fi is f]
        r.ob("dispatch-frames", d.qual, len(cs) == 1, "a dispatch frames channels %d times" % len(cs), cs[-1] if cs else d)
        for e in cs:
            r.ob("dispatch-time", d.qual, e.arg(0, f.params[1]) == V("sym", d.params[1]), "channels are framed at the time %s" % show(e.arg(0, f.params[1])), e)
    # dispatching now
    now = r.method("ChannelEnvironment", "dispatch_now")
    m = 0
    for p in r.paths(now, r.walker(opaque=QUIET | {"ChannelEnvironment.dispatch", "TimeEntity.get_time"})):
        if p.kind == "exc":
            continue
        ts = {e.val for e in p.events if e.kind == "call" and e.name == "get_time" and e.recv == SELF} | {V("attr", SELF, "curr_time")}
        cs = [e for e in p.events if e.kind == "call" and e.fi is d]
        r.ob("dispatch-frames", now.qual, len(cs) == 1, "dispatching now dispatches %d times" % len(cs), now)
        for e in cs:
            m += 1
            r.ob("dispatch-time", now.qual, e.arg(0, d.params[1]) in ts, "dispatching now uses the time %s" % show(e.arg(0, d.params[1])), e)
    r.require("emits-when-due", "due-emits", "time-updated", "not-due-nothing", "due-framed", "asked-with-time")
