"""F01: every frame says whose it is, what it holds and for which time it was made."""
from rules._daemon import *

SELF = V("sym", "self")
TIME = V("sym", "time")
KINDS = {"data": "ChannelFrame", "event": "ChannelFrame", "message": "MessageFrame"}
CHANGES = ("set", "add", "read", "command")


def flat(g, st):
    return not (g.name == "__init__" and g.cls is not None) and g.name not in ("time_to_int", "set")


def of_time(v, t):
    """Whether the value is the time in a frame's own units."""
    if v.k == "call" and v.a and str(v.a[0]).split(":")[-1].split(".")[-1] == "time_to_int":
        return None
    return None if mentions(v, t) else False


def new_frames(r):
    f = r.method("Framer", "new_frame")
    me = SELF.typed(("c", r.cls("Framer")))
    ids, stamps, kinds = set(), {}, {}
    for name, cls in KINDS.items():
        later = []
        for p in r.call(r.walker(opaque=METRICS, try_raise=False, inline_pred=flat), V("bound", f, me), [const(name), TIME]):
            if p.kind == "exc":
                continue
            new = [(i, e) for i, e in enumerate(p.events) if e.kind == "new" and e.val == p.val]
            if len(new) != 1:
                r.ob("kind-of-frame", name, None if p.val is not None and p.val.k not in ("const", "obj") else False, "asking for a '%s' frame gives %s" % (name, show(p.val)), f)
                continue
            i, e = new[0]
            r.ob("kind-of-frame", name, e.name == cls, "a '%s' frame is made as a %s" % (name, e.name), e)
            kw = e.kw
            r.ob("framer-settings", name, kw.get("mtu") == V("attr", SELF, "mtu") and kw.get("use_crc") == V("attr", SELF, "use_crc"),
                 "a '%s' frame is made with the limit %s and checksum choice %s, not the framer's own" % (name, show(kw.get("mtu")), show(kw.get("use_crc"))), e)
            ids.add(kw.get("frame_id"))
            kinds.setdefault(name, set()).add(kw.get("frame_type"))
            none = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == TIME and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            ts = kw.get("timestamp")
            sets = [(j, x) for j, x in enumerate(p.events) if x.kind == "call" and x.name == "set" and x.recv is not None]
            mine = [(j, x) for j, x in sets if x.recv == ts]
            if none:
                r.ob("time-kept", name, not [x for j, x in sets], "a '%s' frame made without a time sets one" % name, sets[0][1] if sets else e)
                later.append((ts, e))
                continue
            before = [(j, x) for j, x in mine if j < i]
            r.ob("stamped", name, len(before) == 1 and len(mine) == 1, "the time of a '%s' frame is set %d times before it is made" % (name, len(before)), (mine or [(0, e)])[-1][1])
            for j, x in before:
                a = x.args[0] if x.args else x.kw.get("data")
                conv = [y for y in p.events[:j] if y.kind == "call" and y.name.split(":")[-1] == "time_to_int" and y.val == a]
                good = bool(conv) and conv[-1].args[:1] == (TIME,) and len(conv[-1].args) == 1 and not conv[-1].kw
                r.ob("stamped", name, good or (None if a is not None and not conv and mentions(a, TIME) else False), "a '%s' frame is stamped with %s, not with the time it is made for" % (name, show(a)), x)
                ok = any(v == x.val and pol for _, v, pol, _e in assumes(p, i))
                r.ob("stamped", name, ok, "a time which does not fit is taken as set", x)
            slot = {ts} | {V("item", s.recv, s.args[0]) for s in p.events if s.kind == "store" and s.val == ts} | {V("attr", s.recv, s.name) for s in p.events if s.kind == "write" and s.val == ts}
            stamps.setdefault(name, []).append(slot)
        for ts, e in later:
            ok = all(ts in s for s in stamps.get(name, [set()]))
            r.ob("time-kept", name, ok, "a '%s' frame made without a time carries %s, not the time last set for such frames" % (name, show(ts)), e)
    r.ob("own-id", "Framer", len(ids) == 1 and all(i is not None and root(i) == SELF for i in ids), "frames carry %s as their application's identifier" % ", ".join(show(i) for i in ids), f)
    for name, ks in kinds.items():
        others = [k for n, x in kinds.items() if n != name for k in x]
        r.ob("type-field", name, len(ks) == 1 and not ks & set(others) and all(k is not None for k in ks), "a '%s' frame says it is %s" % (name, ", ".join(show(k) for k in ks)), f)
        for k in ks:
            for s in stamps.get(name, []):
                shared = [n for n, x in stamps.items() if n != name and any(s & y for y in x)]
                r.ob("time-kept", name, not shared, "'%s' frames share their time with %s frames" % (name, ", ".join(shared)), f)
    return (ids and list(ids)[0]), {name: list(ks)[0] for name, ks in kinds.items() if len(ks) == 1}


def built(r, ident, kinds):
    """What a framer is constructed with."""
    f = r.method("Framer", "__init__")
    me = SELF.typed(("c", r.cls("Framer")))

    def pred(g, st):
        return g.cls is None or g.name not in ("__init__", "get_primitive", "set")
    n = 0
    for p in r.call(r.walker(opaque=METRICS | {"basis_to_int", "UserEnum.get_primitive", "Framer.create_app_id"}, try_raise=False, inline_pred=pred), V("bound", f, me), [V("sym", a) for a in f.params[1:]]):
        if p.kind == "exc":
            continue
        made = [e for e in p.events if e.kind == "call" and e.name == "create_app_id"]
        held = [v for k, v in p.st.store.items() if isinstance(v, V) and any(v == e.val for e in made) and k[0] in ("I", "A")]
        r.ob("own-id", f.qual, len(made) == 1 and bool(held) and list(made[0].args) + list(made[0].kw.values()) == [V("sym", "app_id_basis")], "a framer's identifier is not made from the basis given", made[0] if made else f)
        for e in p.events:
            if e.kind == "call" and e.name == "get_primitive":
                n += 1
                keys = [s.args[0] for s in p.events if s.kind == "store" and s.val == e.val]
                comp = [t for k, c in p.st.store.items() if k[0] == "COMP" for t in c or () if tup(t, 1) == e.val]
                keys += [tup(t, 0) for t in comp]
                r.ob("type-field", f.qual, None if not keys else all(k == e.args[0] for k in keys), "the kind '%s' is written as '%s'" % (show(keys[0]) if keys else "?", show(e.args[0])), e)
    r.ob("type-field", f.qual, True if n else None, "where the kinds come from is not understood", f)
    g = r.func("vtelem.frame.framer", "create_app_id") if False else r.method("Framer", "create_app_id")
    b = V("sym", g.params[0])
    for p in r.paths(g, r.walker(opaque=METRICS | {"basis_to_int", "vtelem.frame.framer:basis_to_int", "random_integer", "vtelem.enums.primitive:random_integer", "TypePrimitive.set"}, try_raise=False)):
        if p.kind == "exc":
            continue
        sets = [e for e in p.events if e.kind == "call" and e.name == "set" and e.recv == p.val]
        none = next((pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == b and is_none(v.a[2])), None)
        r.ob("id-of-basis", g.qual, len(sets) == 1 and any(v == sets[0].val and pol for _, v, pol, _e in assumes(p)), "an identifier which does not fit is taken as set", sets[0] if sets else g)
        if none is False and sets:
            conv = [e for e in p.events if e.kind == "call" and e.name.split(":")[-1] == "basis_to_int" and e.val == sets[0].args[0]]
            r.ob("id-of-basis", g.qual, bool(conv) and conv[0].args == (b,), "the identifier is %s, whatever the basis given" % show(sets[0].args[0]), sets[0])
        elif none is None and sets:
            rnd = any(e.kind == "call" and e.name.split(":")[-1] == "random_integer" and e.val == sets[0].args[0] for e in p.events)
            r.ob("id-of-basis", g.qual, not rnd, "a basis of zero gives a random identifier", sets[0])


def unchanged(r):
    """Nothing changes a framer's identifier, its kinds or its times after construction, but making a frame."""
    F = r.cls("Framer")
    init, new = r.method("Framer", "__init__"), r.method("Framer", "new_frame")
    g = r.graph()
    ok = {init, new}
    n = 0
    for f, evs in g.evs.items():
        for e in evs:
            if e.recv is None:
                continue
            n += 1
            hit = None
            if e.kind == "call" and e.name in CHANGES and any(x.k == "attr" and x.a[1] in ("primitives", "app_id", "timestamps") for x in subterms(e.recv)):
                hit = e.recv
            if e.kind == "store" and e.recv.k == "attr" and e.recv.a[1] in ("primitives", "timestamps"):
                hit = e.recv
            if e.kind == "write" and e.name in ("primitives", "timestamps"):
                hit = V("attr", e.recv, e.name)
            if hit is None:
                continue
            t = [r.p.attr_type(x.a[0].ty[1], x.a[1]) if x.a[0].ty and x.a[0].ty[0] == "c" else None for x in subterms(hit) if x.k == "attr"]
            mine = f in ok or r.private(f) and all(c in ok for c in g.callers.get(f, ()))
            r.ob("never-changed", f.qual, mine, "%s of a framer is changed while frames are made with it" % show(hit), e)
    r.ob("never-changed", "Framer", True if n else None, "", F)


def users(r):
    """Frames are asked for by kind and time."""
    OPQ = METRICS | {"Framer.new_frame", "ChannelFrame.add", "ChannelFrame.add_event", "Frame.finalize", "Channel.emit", "Registry.get_id", "ChannelRegistry.get_channel_type", "EventQueue.consume",
                     "MessageFrame.initialize", "MessageFrame.create_fields", "MessageFrame.messag_crc", "vtelem.frame.message:frames_required"}
    cases = [("ChannelFramer", "new_data_frame", "data"), ("ChannelFramer", "new_event_frame", "event"), ("MessageFramer", "message_frame", "message"),
             ("ChannelFramer", "build_data_frames", "data"), ("ChannelFramer", "build_event_frames", "event"), ("MessageFramer", "serialize_message", "message")]
    for c, m, kind in cases:
        f = r.method(c, m)
        if "time" not in f.params:
            raise Anchor("the time %s is given" % f.qual)
        n = 0
        for p in r.call(r.walker(opaque=OPQ, loop=(0, 1, 2), try_raise=False), V("bound", f, V("sym", "self", ty=("c", r.cls(c)))), [V("sym", a) for a in f.params[1:]]):
            asked = [e for e in p.events if e.kind == "call" and e.name == "new_frame"]
            for k, e in enumerate(asked):
                n += 1
                a, t = e.arg(0, "frame_type"), e.arg(1, "time")
                r.ob("asks-for-kind", f.qual, None if a is None or not is_const(a) else cval(a) == kind, "a '%s' frame is made as '%s'" % (kind, show(a)), e)
                r.ob("asks-for-time", f.qual, t == TIME or (t is None or is_none(t)) and k > 0 and m.startswith("build_"), "a frame is made for %s, not for the time it was asked for" % (show(t) if t is not None else "whatever time came before"), e)
            if p.kind != "exc" and not m.startswith(("build_", "serialize")):
                r.ob("asks-for-kind", f.qual, len(asked) == 1 and p.val == asked[0].val, "%s does not give the frame it makes" % f.name, f)
        r.ob("asks-for-kind", f.qual, n > 0, "no frame is ever made", f)
    # dispatching frames everything for one time
    env = r.cls("ChannelEnvironment")
    for m, calls in (("dispatch", ("build_data_frames", "build_event_frames")), ("dispatch_data", ("build_data_frames",)), ("dispatch_events", ("build_event_frames",)), ("dispatch_now", ("build_data_frames", "build_event_frames"))):
        f = r.method("ChannelEnvironment", m)
        for p in r.call(r.walker(opaque=METRICS | {"ChannelFramer.build_data_frames", "ChannelFramer.build_event_frames", "ChannelEnvironment.metric_add", "ChannelEnvironment.enqueue_frames", "TimeEntity.get_time"}, try_raise=False),
                        V("bound", f, V("sym", "self", ty=("c", env))), [V("sym", a) for a in f.params[1:]]):
            if p.kind == "exc":
                continue
            now = [e.val for e in p.events if e.kind == "call" and e.name == "get_time"]
            times = set()
            for b in calls:
                es = [e for e in p.events if e.kind == "call" and e.name == b]
                r.ob("one-time", f.qual, len(es) == 1, "%s is called %d times" % (b, len(es)), f)
                times |= {e.arg(0, "time") for e in es}
            r.ob("one-time", f.qual, len(times) == 1 and (TIME in times or m == "dispatch_now" and list(times)[0] in now + [V("attr", SELF, "time")]), "frames of one dispatch are made for %s" % ", ".join(show(t) for t in times), f)
    for m in ("serialize_message_str", "serialize_message_json", "serialize_object"):
        f = r.method("MessageFramer", m)
        if "time" not in f.params:
            raise Anchor("the time %s is given" % f.qual)
        for p in r.call(r.walker(opaque=METRICS | {"MessageFramer.serialize_message", "Serializable.json_str"}, try_raise=False), V("bound", f, V("sym", "self", ty=("c", r.cls("MessageFramer")))), [V("sym", a) for a in f.params[1:]]):
            if p.kind == "exc":
                continue
            es = [e for e in p.events if e.kind == "call" and e.name == "serialize_message"]
            ok = len(es) == 1 and es[0].arg(1, "time") == TIME
            r.ob("asks-for-time", f.qual, ok, "a message's frames are made for another time", es[0] if es else f)
            if es and "message_type" in f.params:
                r.ob("message-type", f.qual, es[0].arg(2, "message_type") == V("sym", "message_type"), "a message is sent as %s" % show(es[0].arg(2, "message_type")), es[0])


def check(r):
    r.rule("Framer.new_frame is walked for every kind of frame, with and without a time: the frame is of the class and carries the type field of the kind asked for, the framer's own identifier, limit and checksum choice; with a time, the timestamp it is constructed with "
           "was set before, once and successfully, to that time; without one it is the timestamp last used for frames of that kind, unset. The identifier is made once, from the basis given, and no function but those two changes the identifier, type or timestamp fields a framer "
           "holds. Every path building frames for a dispatch or a message asks for frames of its own kind and for the time given (a continuation may ask for none), and a dispatch builds events and data for one and the same time.")
    ident, kinds = new_frames(r)
    built(r, ident, kinds)
    unchanged(r)
    users(r)
    r.require("stamped", "own-id", "asks-for-kind", "one-time", "never-changed")
