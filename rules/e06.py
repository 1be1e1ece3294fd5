"""E06: a channel group reads and writes exactly the channels it added."""
from rules._daemon import *

VALUES = ("get_value", "get_enum_value", "set_now", "set_enum_now")
ADDS = ("add_channel", "add_enum_channel")
OP = METRICS | {c + "." + x for c in ("TelemetryEnvironment", "ChannelEnvironment") for x in VALUES + ADDS} | {"TimeEntity.get_time", "Registry.get_id", "Registry.get_item", "Registry.add", "EnumRegistry.get_enum"}


def walker(r, **kw):
    return r.walker(opaque=OP, raises=lambda e: ["AssertionError"] if e.kind == "call" and e.name in ADDS and e.fi is not None and e.fi.cls is not None and "Group" not in e.fi.cls.name else [], **kw)


def calls(p, env, names):
    return [e for e in p.events if e.kind == "call" and e.name in names and e.recv == env]


def truth(p):
    return None if p.val is None or not is_const(p.val) else bool(cval(p.val))


def entries(st, d):
    """The entries of a dict wholly known, as {name: value}."""
    keys = st.store.get(("K", d))
    if d is None or keys is None or not all(isinstance(k, (str, int)) or is_const(k) for k in keys):
        return None
    out = {}
    for k in keys:
        k = k if isinstance(k, V) else const(k)
        out[cval(k)] = st.store.get(("I", d, k), st.store.get(("I", d, cval(k))))
    return out


def adding(r, me, st, env, meth, op, name, args):
    """A channel is added to the group: [(the path's state, the id of the channel)]."""
    f = r.method("ChannelGroup", meth)
    g = r.method("TelemetryEnvironment", op) if r.p.find_method(r.cls("TelemetryEnvironment"), op) else r.method("ChannelEnvironment", op)
    good = []
    before = {k: v for k, v in st.store.items() if k[0] in ("A", "I", "K")}
    for p in r.call(walker(r), V("bound", f, me), [const(name)] + args, st=st):
        es = calls(p, env, (op,))
        okd = [e for e in es if e.val.k != "exc"]
        if p.kind == "exc":
            r.ob("refused-told", f.qual, not es or bool(okd) and None, "a channel the environment refuses is reported as %s, not as a failure" % p.exc_name, es[-1] if es else f)
            continue
        if okd and op == "add_enum_channel":
            known = {e.val for e in p.events if e.kind == "call" and e.name == "get_id"}
            r.ob("added", f.qual, not any(v.k == "cmp" and v.a[0] == "is" and v.a[1] in known and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p)), "a channel of an unknown enum is added", f)
        t = truth(p)
        r.ob("adding-told", f.qual, None if t is None else t == (len(okd) == 1), "a group which %s a channel returns %s" % ("added" if okd else "could not add", show(p.val)), f)
        for e in es:
            got = [e.arg(0, "name"), e.arg(1, g.params[2]), e.arg(2, "rate"), e.arg(3, "track_change")]
            want = [const("g." + name)] + args
            r.ob("added-as-asked", f.qual, got == want, "a channel %s of group g is added as (%s)" % (name, ", ".join(show(x) if x is not None else "-" for x in got)), e)
            r.ob("added-as-asked", f.qual, len(es) == 1, "a channel is added %d times" % len(es), e)
        if okd and t:
            good.append((p.st, okd[0].val))
        else:
            after = {k: p.st.store.get(k) for k in before}
            r.ob("refused-untouched", f.qual, after == before, "a channel which could not be added leaves a trace in its group", f)
    r.ob("added", f.qual, bool(good), "no channel can be added", f)
    return good[:3]


def reading(r, me, st, env, want):
    f = r.method("ChannelGroup", "read")
    n = 0
    for p in r.call(walker(r), V("bound", f, me), [], st=st):
        if p.kind == "exc":
            continue
        n += 1
        check_read(r, f, p, env, p.val, want)
    r.ob("reads-own", f.qual, n > 0, "a group cannot be read", f)


def check_read(r, f, p, env, d, want):
    """The dict d holds the present value of each channel."""
    got = entries(p.st, d)
    if got is None:
        r.ob("reads-own", f.qual, None if d is not None and d.k not in ("const", "attr") else False, "what is read is %s" % (show(d) if d is not None else None), f)
        return
    r.ob("reads-own", f.qual, set(got) == set(want), "reading a group of %s gives %s" % (", ".join(sorted(want)), ", ".join(sorted(map(str, got))) or "nothing"), f)
    for k, (i, enum) in want.items():
        v = got.get(k)
        e = next((e for e in p.events if e.kind == "call" and e.val == v and e.recv == env), None)
        ok = e is not None and e.name == ("get_enum_value" if enum else "get_value") and e.arg(0, "chan_id") == i
        r.ob("reads-own", f.qual, ok, "%s channel %s is read as %s" % ("the enum" if enum else "the", k, show(v) if v is not None else None), e or f)


def check_writes(r, f, p, env, want, where=""):
    """Exactly the wanted values {name: (id, enum, value)} are written, once each."""
    es = calls(p, env, ("set_now", "set_enum_now"))
    for k, (i, enum, v) in want.items():
        mine = [e for e in es if e.arg(0, "channel_id") == i]
        ok = len(mine) == 1 and mine[0].name == ("set_enum_now" if enum else "set_now") and mine[0].arg(1, "data") == v
        r.ob("writes-own", f.qual, ok, "%s: channel %s is written %s, not %s" % (where, k, ", ".join(show(e.arg(1, "data")) for e in mine) or "never", show(v)), mine[-1] if mine else f)
    ids_ = [i for i, _, _ in want.values()]
    for e in es:
        r.ob("writes-own", f.qual, e.arg(0, "channel_id") in ids_, "%s: a channel nobody named is written" % where, e)


def writing(r, me, st, env, want):
    f = r.method("ChannelGroup", "write")
    names = sorted(want)
    for some in [names, names[:1], names[1:], []]:
        vals = {k: V("sym", "new_" + k) for k in some}
        n = 0
        s = st.fork()
        w = walker(r)
        d = w.new_dict(s, [(const(k), v) for k, v in vals.items()])
        for p in r.call(w, V("bound", f, me), [d], st=s):
            if p.kind == "exc":
                r.ob("writes-own", f.qual, p.exc_name != "AssertionError", "writing channels of the group is refused", f)
                continue
            n += 1
            check_writes(r, f, p, env, {k: want[k] + (vals[k],) for k in some}, "writing " + (", ".join(some) or "nothing"))
        r.ob("writes-own", f.qual, n > 0, "the channels %s cannot be written" % some, f)
    s = st.fork()
    w = walker(r)
    d = w.new_dict(s, [(const("stranger"), V("sym", "v"))])
    for p in r.call(w, V("bound", f, me), [d], st=s):
        r.ob("strangers-refused", f.qual, p.kind == "exc" and not calls(p, env, ("set_now", "set_enum_now")), "writing a name which is not in the group is not refused", f)


def using(r, me, st, env, want):
    f = r.method("ChannelGroup", "data")
    how = set()
    for p in r.call(walker(r), V("bound", f, me), [], st=st):
        ys = [(i, e) for i, e in enumerate(p.events) if e.kind == "yield"]
        if not ys:
            continue
        failed = p.kind == "exc"
        how.add(failed)
        i, e = ys[0]
        r.ob("block-gets-data", f.qual, len(ys) == 1, "the block is entered %d times" % len(ys), e)
        d = e.val
        r.ob("block-gets-data", f.qual, not any(x.kind == "acquire" and not any(y.kind == "release" and y.recv == x.recv for y in p.events[j:i]) for j, x in enumerate(p.events[:i])), "the environment is locked while the block runs", e)
        got = entries(p.st, d) or {}
        check_read(r, f, p, env, d, want)
        r.ob("block-written-back", f.qual, not calls_before(p, i, env), "channels are written before the block ran", e)
        check_writes(r, f, p, env, {k: want[k] + (got.get(k),) for k in want if got.get(k) is not None}, "after a block which %s" % ("fails" if failed else "ends"))
    r.ob("block-written-back", f.qual, how == {True, False}, "a block which %s is not understood" % ("fails" if True not in how else "ends"), f)


def calls_before(p, i, env):
    return [e for e in p.events[:i] if e.kind == "call" and e.name in ("set_now", "set_enum_now") and e.recv == env]


def values(r):
    """What the environment does with one channel's value."""
    chan, data = V("sym", "chan"), V("sym", "data")
    c = r.cls("TelemetryEnvironment")
    me = V("sym", "self", ty=("c", c))
    opq = METRICS | {"TimeEntity.get_time", "Registry.get_item", "Channel.set", "Channel.get", "TypePrimitive.set", "TypePrimitive.get", "UserEnum.get_str", "UserEnum.get_value"}
    for name in VALUES:
        f = r.p.find_method(c, name)
        if f is None:
            raise Anchor("TelemetryEnvironment.%s" % name)
        n = 0
        for p in r.call(r.walker(opaque=opq), V("bound", f, me), [chan] + ([data] if name.startswith("set") else []), st=St()):
            if p.kind == "exc":
                continue
            items = {e.val: e for e in p.events if e.kind == "call" and e.name == "get_item"}
            if any(is_const(e.arg(0, "item_id")) for e in items.values() if e.arg(0, "item_id") is not None):
                # a channel which has no enum: nothing is registered as such
                continue
            n += 1
            chans = [v for v, e in items.items() if e.arg(0, "item_id") == chan]
            enums = [v for v, e in items.items() if e.arg(0, "item_id") != chan and mentions(e.arg(0, "item_id"), chan)]
            acc = [e for e in p.events if e.kind == "call" and e.name in ("set", "get") and e.recv in chans]
            r.ob("own-channel", f.qual, len(acc) == 1 and acc[0].name == name[:3], "%s %s the channel %d times" % (name, "sets" if name.startswith("set") else "reads", len(acc)), f)
            if len(acc) != 1:
                continue
            tr = [e for e in p.events if e.kind == "call" and e.name in ("get_str", "get_value") and e.recv in enums]
            if "enum" in name:
                r.ob("own-enum", f.qual, len(tr) == 1, "%s does not use the enum of the channel" % name, f)
                if len(tr) != 1:
                    continue
            if name.startswith("get"):
                want = tr[0].val if "enum" in name else acc[0].val
                r.ob("own-channel", f.qual, p.val == want, "%s returns %s" % (name, show(p.val) if p.val is not None else None), f)
                if "enum" in name:
                    r.ob("own-enum", f.qual, tr[0].name == "get_str" and tr[0].args[:1] == (acc[0].val,), "%s translates %s" % (name, show(tr[0].args[0]) if tr[0].args else None), tr[0])
            else:
                want = tr[0].val if "enum" in name else data
                now = acc[0].arg(1, "time")
                r.ob("own-channel", f.qual, acc[0].arg(0, "value") == want or acc[0].args[:1] == (want,), "%s sets the channel to %s" % (name, show(acc[0].args[0]) if acc[0].args else None), acc[0])
                r.ob("set-now", f.qual, now is not None and any(e.kind == "call" and e.name == "get_time" and e.val == now for e in p.events), "%s sets the channel at %s, not at the environment's present time" % (name, show(now) if now is not None else "no time"), acc[0])
                r.ob("own-channel", f.qual, p.val == acc[0].val, "%s does not report whether the channel was set" % name, f)
                if "enum" in name:
                    r.ob("own-enum", f.qual, tr[0].name == "get_value" and tr[0].args[:1] == (data,), "%s translates %s" % (name, show(tr[0].args[0]) if tr[0].args else None), tr[0])
        r.ob("own-channel", f.qual, n > 0, "%s never succeeds" % name, f)


def registry(r):
    c = r.cls("ChannelGroupRegistry")
    env = V("sym", "env", ty=("c", r.cls("TelemetryEnvironment")))
    groups = r.cls("ChannelGroup")
    name = V("sym", "name")
    gid = V("sym", "group")
    made = 0
    for me, st in r.construct(walker(r), c, [env], {}):
        f = r.method("ChannelGroupRegistry", "create_group")
        for p in r.call(walker(r), V("bound", f, me), [name], st=st):
            adds = [e for e in p.events if e.kind == "call" and e.name == "add" and e.recv == me]
            if p.kind == "exc":
                continue
            made += 1
            r.ob("group-made", f.qual, len(adds) == 1 and adds[0].arg(0, "name") == name, "a group is registered %d times" % len(adds), f)
            for e in adds:
                g = e.arg(1, "item")
                news = [x for x in p.events if x.kind == "new" and x.val == g]
                own = [x.arg(0, "name") for x in news] + [p.st.store.get(("A", g, "name"))]
                r.ob("group-made", f.qual, bool(news) and name in own and p.st.store.get(("A", g, "env")) in (env, None), "the group registered is %s" % (show(g) if g is not None else None), e)
                okd = any(pol and v.k == "item" and v.a[0] == e.val for _, v, pol, _ in assumes(p)) or any(e.val == x for _, x, pol, _ in assumes(p) if pol)
                fresh_ = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and any(x.kind == "call" and x.name == "get_id" and x.val == v.a[1] and x.arg(0, "name") == name for x in p.events) for _, v, pol, _ in assumes(p))
                r.ob("group-made", f.qual, okd or fresh_, "a group is reported as made without having been registered", e)
                r.ob("group-made", f.qual, p.val is not None and p.val.k == "item" and p.val.a[0] == e.val and p.val.a[1] in (1, const(1)), "the id of a group made is %s" % (show(p.val) if p.val is not None else None), e)
        for meth, args in (("add_channel", ["name", "instance", "rate", "track_change"]), ("add_enum_channel", ["name", "enum_name", "rate", "track_change"])):
            f = r.method("ChannelGroupRegistry", meth)
            w = r.walker(opaque=OP | {"ChannelGroup." + meth})
            given = [V("sym", x) for x in args]
            n = 0
            for p in r.call(w, V("bound", f, me), [gid] + given, st=st):
                if p.kind == "exc":
                    continue
                n += 1
                es = [e for e in p.events if e.kind == "call" and e.name == meth]
                items = [e.val for e in p.events if e.kind == "call" and e.name == "get_item" and e.arg(0, "item_id") == gid]
                ok = len(es) == 1 and es[0].recv in items and [es[0].arg(k, x) for k, x in enumerate(args)] == given
                r.ob("group-named", f.qual, ok, "a channel for one group is added %s" % ("%d times" % len(es) if len(es) != 1 else "as %s" % show(V("tup", *es[0].args))), es[0] if es else f)
            r.ob("group-named", f.qual, n > 0, "a channel cannot be added to a group", f)
        f = r.method("ChannelGroupRegistry", "group")
        how = set()
        for p in r.call(r.walker(opaque=OP | {"ChannelGroup.read", "ChannelGroup.write"}), V("bound", f, me), [gid], st=st):
            ys = [(i, e) for i, e in enumerate(p.events) if e.kind == "yield"]
            if not ys:
                continue
            items = [e.val for e in p.events if e.kind == "call" and e.name == "get_item" and e.arg(0, "item_id") == gid]
            rd = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "read" and e.recv in items]
            wr = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "write" and e.recv in items]
            last = ys[-1]
            how.add(p.kind == "exc")
            r.ob("group-named", f.qual, any(last[1].val == e.val for _, e in rd), "a block using one group gets %s" % (show(last[1].val) if last[1].val is not None else None), last[1])
            r.ob("group-named", f.qual, len(wr) == 1 and wr[0][0] > last[0] and wr[0][1].arg(0, "values") == last[1].val, "what a block made of a group's data is written %d times" % len(wr), wr[-1][1] if wr else f)
        r.ob("group-named", f.qual, how == {True, False}, "a group cannot be used", f)
    r.ob("group-made", "ChannelGroupRegistry", made > 0, "no group can be made", c)


def check(r):
    r.rule("A group is built, a channel and an enum channel are added to it along every path (the environment adding them or refusing), and the group reached is read, written and used as a block: "
           "adding asks the environment once for the channel named after the group, with the type, rate and tracking given, and reports what happened; reading gives exactly one entry per channel, its present value (the enum's name); writing sets exactly the channels named, "
           "each to its own value, and refuses names not in the group before setting anything for them; a block's data is written back once, however the block ends. The environment's functions for one channel use that channel and its own enum, at the present time. "
           "The group registry applies everything to the group named.")
    env = V("sym", "env", ty=("c", r.cls("TelemetryEnvironment")))
    n = 0
    for me, st in r.construct(walker(r), r.cls("ChannelGroup"), [const("g"), env], {}):
        for s1, a in adding(r, me, st, env, "add_channel", "add_channel", "a", [V("sym", x) for x in ("instance", "rate", "track")]):
            for s2, b in adding(r, me, s1, env, "add_enum_channel", "add_enum_channel", "b", [V("sym", x) for x in ("enum_name", "rate", "track")]):
                want = {"a": (a, False), "b": (b, True)}
                n += 1
                reading(r, me, s2, env, want)
                writing(r, me, s2, env, want)
                using(r, me, s2, env, want)
    r.ob("reads-own", "ChannelGroup", n > 0, "no group with channels is reached", r.cls("ChannelGroup"))
    values(r)
    registry(r)
    r.require("reads-own", "writes-own", "own-channel", "group-named")
