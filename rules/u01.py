"""U01: user enumerations map names and values both ways."""
from rules._daemon import *
from rules.j01 import entries
from vsa.walk import St

MOD = "vtelem.classes.user_enum"


def lowered(v):
    """v without its conversions to lower case."""
    n = 0
    while isinstance(v, V) and v.k == "app" and v.a[0] == "m:lower" and len(v.a) == 2:
        v, n = v.a[1], n + 1
    return v, n


def as_int(v):
    while isinstance(v, V) and v.k == "app" and v.a[0] == "int" and len(v.a) == 2:
        v = v.a[1]
    return v


def both_ways(r):
    S = V("sym", "self")
    # an enum class becomes a user enum with all members
    f = r.func(MOD, "from_enum")
    src = V("sym", f.params[0])
    for p in r.paths(f, r.walker(try_raise=False, inline_pred=lambda x, s: True)):
        if p.kind == "exc":
            continue
        data = p.st.store.get(("A", p.val, "data"))
        mp = p.st.store.get(("I", data, const("mappings"))) if data is not None else None
        strings = p.st.store.get(("A", p.val, "strings"))
        members = []
        for e in p.events:
            if e.kind in ("iter", "compiter") and e.args and e.args[0] == src and e.val not in members:
                members.append(e.val)
        if mp is None or mp.k != "obj" or strings is None or not members:
            r.ob("members", f.qual, None, "the enumeration made is not understood", f)
            continue
        es = {}
        for k, v in entries(p, mp):
            es[as_int(k)] = v
        for k in p.st.store.get(("K", mp)) or ():
            es.setdefault(as_int(k), p.st.store.get(("I", mp, k)))
        # an entry which is neither of a member nor constant was copied from a collection whose entries are not followed
        vague = any(not is_const(k) and not any(mentions(k, m) for m in members) for k in es)
        for m in members:
            got = es.get(V("attr", m, "value"))
            if got is None:
                r.ob("members", f.qual, None if vague or any(mentions(k, m) for k in es) else False, "the value of a member is not in the enumeration", f)
                continue
            base, low = lowered(got)
            r.ob("members", f.qual, base == V("attr", m, "name") and low > 0, "the value of a member stands for %s" % show(got), f)
            ss = {}
            for k, v in entries(p, strings):
                ss[lowered(k)[0]] = as_int(v)
            r.ob("names", f.qual, ss.get(V("attr", m, "name")) == V("attr", m, "value"), "the name of a member stands for %s" % (show(ss[V("attr", m, "name")]) if V("attr", m, "name") in ss else "nothing"), f)
        r.ob("members", f.qual, len(es) == len(members) or (None if vague else False), "%d entries are made for %d members" % (len(es), len(members)), f)
    # an enumeration of any mapping keeps every name in the case names are looked up in
    f = r.func(MOD, "user_enum_data")
    found = []
    for p in r.paths(f, r.walker(try_raise=False, inline_pred=lambda x, s: True)):
        if p.kind == "exc":
            continue
        mp = p.st.store.get(("I", p.val, const("mappings")))
        if mp is None or mp.k != "obj":
            r.ob("lower-case", f.qual, None, "the mapping kept is %s" % show(mp), f)
            continue
        es = dict(entries(p, mp))
        for k in p.st.store.get(("K", mp)) or ():
            es.setdefault(k, p.st.store.get(("I", mp, k)))
        found.append((p, mp, es))
        for k, v in es.items():
            if v is not None and not is_const(v):
                r.ob("lower-case", f.qual, lowered(v)[1] > 0, "the name kept for a value is %s: in a case which looking it up by value does not give back" % show(v), f)
    # a loop which on some path lowers the names one by one does so for each of them
    nodes = {id(e.node) for p, mp, es in found for e in p.events if e.kind == "iter" and any(k is not None and e.val is not None and same_pass(e, k) for k in es)}
    for p, mp, es in found:
        for e in p.events:
            if e.kind == "iter" and e.val is not None and id(e.node) in nodes:
                r.ob("lower-case", f.qual, any(same_pass(e, k) for k in es), "the name of a value is kept as it was given", e)
    r.ob("lower-case", f.qual, True if any(lowered(v)[1] for _p, _m, es in found for v in es.values() if v is not None) else None, "the names kept are not understood", f)
    # the reverse map
    init = r.method("UserEnum", "init")
    me = S.typed(("c", r.cls("UserEnum")))
    data = V("attr", S, "data")
    some = False
    for p in r.call(r.walker(try_raise=False), V("bound", init, me), [data]):
        if p.kind == "exc":
            continue
        st = [e for e in p.events if e.kind == "store" and e.recv == data and is_const(e.args[0], "mappings")]
        wr = [e for e in p.events if e.kind == "write" and e.recv == S and e.name == "strings"]
        r.ob("names", init.qual, bool(wr), "no map from names to values is made", init)
        if not wr:
            continue
        mp = st[-1].val if st else V("item", data, const("mappings"))
        d = wr[-1].val
        es = entries(p, d)
        its = [e for e in p.events if e.kind in ("iter", "compiter") and e.args and any(x == mp for x in subterms(e.args[0]))]
        if its:
            r.ob("names", init.qual, True if len(es) == len(its) else (False if not es else None), "%d names are kept for %d values" % (len(es), len(its)), wr[-1])
        some = some or bool(es) or d.k != "obj"
        for k, v in es:
            base, low = lowered(k)
            vb = as_int(v)
            pair = base.k == "item" and (base.a[1] == vb or as_int(base.a[1]) == vb) or base.k in ("elem",) or tuple_pair(base, vb)
            r.ob("names", init.qual, True if pair and low else (False if not low or vb == base or is_const(vb) else None), "%s stands for %s" % (show(k), show(v)), wr[-1])
        # default
        ds = [e for e in p.events if e.kind == "store" and e.recv == data and is_const(e.args[0], "default")]
        old = V("item", data, const("default"))
        none = next((pol for _, v, pol, _ in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == old and is_none(v.a[2])), None)
        for e in ds:
            if none is None:
                r.ob("default", init.qual, mentions(e.val, old), "the default given is replaced by %s" % show(e.val), e)
            if none is False:
                r.ob("default", init.qual, e.val == old, "the default given is replaced by %s" % show(e.val), e)
        if none is True:
            r.ob("default", init.qual, bool(ds) and not is_none(ds[-1].val) and ds[-1].val != old, "there is no default although none was given", init)
    r.ob("names", init.qual, some, "no name is ever kept", init)
    # lookups
    f = r.method("UserEnum", "get_str")
    v = V("sym", f.params[1])
    for p in r.paths(f, r.walker()):
        if p.kind != "exc":
            r.ob("value-to-name", f.qual, p.val == V("item", V("item", data, const("mappings")), v), "the name of a value is %s" % show(p.val), f)
    f = r.method("UserEnum", "get_value")
    v = V("sym", f.params[1])
    for p in r.paths(f, r.walker(assert_fork=True)):
        if p.kind == "exc":
            continue
        got = of_name(p, p.val, v, S)
        r.ob("name-to-value", f.qual, got, "the value of a name is %s" % show(p.val), f)
        r.ob("unknown-name", f.qual, not_none(p, p.val, v, S), "an unknown name has a value", f)
    f = r.method("UserEnum", "get_primitive")
    v = V("sym", f.params[1])
    for p in r.paths(f, r.walker(assert_fork=True, opaque=METRICS | {"TypePrimitive.set", "new_default"})):
        if p.kind == "exc":
            continue
        sets = [e for e in p.events if e.kind == "call" and e.name == "set" and e.recv == p.val]
        news = [e for e in p.events if e.kind == "call" and e.name == "new_default" and e.val == p.val]
        r.ob("initial-value", f.qual, len(sets) == 1 and of_name(p, sets[0].arg(0, "data"), v, S), "the primitive does not hold the value of the name", f)
        for e in sets:
            ok = any(x == e.val and pol for _, x, pol, _ in assumes(p))
            r.ob("initial-value", f.qual, ok, "a value which does not fit is taken as set", e)
        for e in news:
            r.ob("initial-value", f.qual, is_const(e.arg(0, "name") if e.arg(0, "name") is not None else e.args[0], "enum"), "the primitive is not of the enumeration type", e)
            cb = V("sym", f.params[2]) if len(f.params) > 2 else None
            if cb is not None:
                r.ob("initial-value", f.qual, cb in e.args or cb in e.kw.values(), "the change callback is not used", e)
    f = r.method("UserEnum", "default")
    for p in r.paths(f, r.walker()):
        if p.kind != "exc":
            r.ob("default", f.qual, p.val == V("item", data, const("default")), "the default is %s" % show(p.val), f)
    # size
    f = r.func(MOD, "coerce_enum")
    seen = 0
    for p in r.paths(f, r.walker(assert_fork=True, try_raise=False)):
        if p.kind == "exc":
            continue
        big = [(v, pol) for _, v, pol, _ in assumes(p) if v.k == "cmp" and v.a[0] == "<" and any("len" in show(x) for x in v.a[1:])]
        for v, pol in big:
            a, b = v.a[1], v.a[2]
            if is_const(a) and cval(a) == 256 and pol is False:
                seen += 1
            if is_const(a) and cval(a) != 256 and cval(a) > 8 and pol is False:
                r.ob("fits", f.qual, False, "up to %s members are accepted" % cval(a), f)
            if is_const(b) and cval(b) == 257 and pol is True:
                seen += 1
    r.ob("fits", f.qual, True if seen else None, "the limit on members is not understood", f)


def same_pass(e, k):
    """Whether the key k is that of the element e gives."""
    x = tup(e.val, 0)
    return k == e.val or k == x or e.val.k == "elem" and k.k == "key" and e.val.a[1:] == k.a[1:] or mentions(k, e.val)


def tuple_pair(base, vb):
    return base.k == "item" and vb is not None and vb.k == "item" and base.a[0] == vb.a[0]


def of_name(p, v, name, S):
    """Whether v is what the enumeration's names give for the lower-cased name."""
    strings = V("attr", S, "strings")
    if v is None:
        return False
    want = V("app", "m:lower", name)
    for x in subterms(v):
        if x.k == "item" and x.a[0] == strings:
            return True if x.a[1] == want else False
    for e in p.events:
        if e.kind == "call" and e.name == "get" and e.recv == strings and e.val == v:
            return e.args[0] == want
    return False if is_const(v) or v == name else None


def not_none(p, v, name, S):
    strings = V("attr", S, "strings")
    want = V("app", "m:lower", name)
    if v.k == "const":
        return False
    for _, x, pol, _ in assumes(p):
        if x.k == "cmp" and x.a[0] == "is" and x.a[1] == v and is_none(x.a[2]) and pol is False:
            return True
        if x == V("cmp", "in", want, strings) and pol:
            return True
    return False


def channels(r):
    """Enum channels: names are converted by the enumeration of that very channel."""
    S = V("sym", "self").typed(("c", r.cls("TelemetryEnvironment")))
    OP = METRICS | {"UserEnum.get_value", "UserEnum.get_str", "EnumRegistry.get_item", "Registry.get_item", "Registry.get_id", "ChannelEnvironment.add_channel", "ChannelEnvironment.get_value", "ChannelEnvironment.get_metric",
                    "ChannelEnvironment.set_now", "ChannelEnvironment.command_channel_id", "Channel.set", "TypePrimitive.set", "ChannelEnvironment.set_metric_rate"}
    types = V("attr", S, "enum_channel_types")
    reg = V("attr", S, "enum_registry")

    def registries(v):
        return v == reg or v is not None and v.k == "item" and is_const(v.a[1], "enum")

    def lookups(p):
        return {e.val: e for e in p.events if e.kind == "call" and e.name == "get_item" and registries(e.recv)}

    def type_of(p, v, chan):
        """Whether v is the enumeration type recorded for channel `chan`."""
        for x in subterms(v):
            if x.k == "item" and x.a[0] == types:
                return x.a[1] == chan
        for e in p.events:
            if e.kind == "call" and e.name == "get" and e.recv == types and e.val == v:
                return e.args[0] == chan
            if e.kind == "assume" and e.val == V("cmp", "in", chan, types) and e.pol is False and is_const(v, -1):
                return True
        return False

    def conv(p, name, chan, what, f, kind):
        cs = [e for e in p.events if e.kind == "call" and e.name == name and e.recv is not None]
        lk = lookups(p)
        for c in cs:
            g = lk.get(c.recv)
            if g is None:
                r.ob(kind, f.qual, None, "the enumeration used is %s" % show(c.recv), c)
                continue
            r.ob(kind, f.qual, type_of(p, g.arg(0, "item_id") if g.arg(0, "item_id") is not None else g.args[0], chan), "the enumeration of another channel is used: %s" % show(g.args[0]), c)
            if what is not None:
                r.ob(kind, f.qual, c.args and c.args[0] == what, "%s is converted" % show(c.args[0] if c.args else None), c)
        return cs

    for name, chan, what, act in (("set_enum_now", 0, 1, "set_now"), ("command_enum_channel_id", 0, 1, "command_channel_id")):
        f = r.method("TelemetryEnvironment", name)
        ch, txt = V("sym", f.params[1 + chan]), V("sym", f.params[1 + what])
        for p in r.paths(f, r.walker(opaque=OP)):
            if p.kind == "exc":
                continue
            cs = conv(p, "get_value", ch, txt, f, "channel-enum")
            acts = [e for e in p.events if e.kind == "call" and e.name == act]
            r.ob("channel-enum", f.qual, len(acts) == 1 and len(cs) == 1 and acts[0].args[0] == ch and (acts[0].arg(1, "data") or acts[0].arg(1, "value")) == cs[0].val and p.val == acts[0].val,
                 "the channel does not get the value of the name, or its answer is lost", f)
    f = r.method("TelemetryEnvironment", "get_enum_value")
    ch = V("sym", f.params[1])
    for p in r.paths(f, r.walker(opaque=OP)):
        if p.kind == "exc":
            continue
        cs = conv(p, "get_str", ch, None, f, "channel-enum")
        vs = [e for e in p.events if e.kind == "call" and e.name == "get_value" and e.args and e.args[0] == ch]
        r.ob("channel-enum", f.qual, len(cs) == 1 and p.val == cs[0].val and any(cs[0].args[0] == e.val for e in vs), "the name given is not that of the channel's value", f)
    metrics = V("attr", S, "metrics")
    f = r.method("TelemetryEnvironment", "set_enum_metric")
    nm, txt = V("sym", f.params[1]), V("sym", f.params[2])
    ch = V("item", metrics, nm)
    for p in r.paths(f, r.walker(opaque=OP)):
        if p.kind == "exc":
            continue
        cs = conv(p, "get_value", ch, txt, f, "channel-enum")
        sets = [e for e in p.events if e.kind == "call" and e.name == "set"]
        if not cs:
            r.ob("channel-enum", f.qual, not sets, "a value is set without its enumeration", f)
            continue
        ok = len(sets) == 1 and sets[0].arg(0, "data") == cs[0].val
        r.ob("channel-enum", f.qual, ok, "the metric does not get the value of the name", f)
        for s in sets:
            g = next((e for e in p.events if e.kind == "call" and e.name == "get_item" and e.val == s.recv), None)
            r.ob("channel-enum", f.qual, g is not None and g.args[0] == ch and not registries(g.recv), "another channel is set", s)
            t = s.arg(1, "time")
            r.ob("channel-enum", f.qual, t is not None and mentions(t, V("sym", f.params[3])), "the time given is lost", s)
    f = r.method("TelemetryEnvironment", "get_enum_metric")
    nm = V("sym", f.params[1])
    ch = V("item", metrics, nm)
    for p in r.paths(f, r.walker(opaque=OP)):
        if p.kind == "exc":
            continue
        cs = conv(p, "get_str", ch, None, f, "channel-enum")
        vs = [e for e in p.events if e.kind == "call" and (e.name == "get_metric" and e.args[0] == nm or e.name == "get_value" and e.args and e.args[0] == ch)]
        r.ob("channel-enum", f.qual, len(cs) == 1 and p.val == cs[0].val and any(cs[0].args[0] == e.val for e in vs), "the name given is not that of the metric's value", f)
    # adding
    f = r.method("TelemetryEnvironment", "add_enum_channel")
    pr = {n: V("sym", n) for n in f.params}
    for p in r.paths(f, r.walker(opaque=OP)):
        if p.kind == "exc":
            continue
        gid = [e for e in p.events if e.kind == "call" and e.name == "get_id" and registries(e.recv)]
        adds = [e for e in p.events if e.kind == "call" and e.name == "add_channel"]
        st = [e for e in p.events if e.kind == "store" and e.recv == types]
        ok = len(gid) >= 1 and gid[0].args[0] == pr["enum_name"]
        r.ob("channel-type", f.qual, ok and len(adds) == 1, "the channel is not added with the enumeration named", f)
        if not ok or len(adds) != 1:
            continue
        a = adds[0]
        r.ob("channel-type", f.qual, len(st) == 1 and st[0].args[0] == a.val and st[0].val == gid[0].val, "the channel is not recorded as one of the enumeration named", f)
        r.ob("channel-type", f.qual, p.val == a.val, "%s is given as the channel's identifier" % show(p.val), f)
        for e in st:
            r.ob("channel-type", f.qual, bool(set(ids(e)) & set(ids(a))), "the channel can be seen without its enumeration", e)
        r.ob("channel-type", f.qual, a.args[0] == pr["name"], "the channel gets another name", a)
        order = ("rate", "track_change", None, "commandable")
        for i, n in enumerate(order, 2):
            if n and n in pr:
                v = a.args[i] if i < len(a.args) else a.kw.get(n)
                r.ob("channel-type", f.qual, v == pr[n], "'%s' of the channel is %s" % (n, show(v) if v is not None else "not given"), a)
        v = a.args[4] if len(a.args) > 4 else a.kw.get("initial")
        none = next((pol for _, x, pol, _ in assumes(p) if x.k == "cmp" and x.a[0] == "is" and x.a[1] == pr["initial"] and is_none(x.a[2])), None)
        if none is False:
            cs = [e for e in p.events if e.kind == "call" and e.name == "get_value"]
            lk = lookups(p)
            g = lk.get(cs[0].recv) if cs else None
            r.ob("channel-initial", f.qual, bool(cs) and g is not None and g.args[0] == gid[0].val and cs[0].args[0] == V("item", pr["initial"], const(0)), "the initial name is not converted by the channel's enumeration", f)
            if cs and v is not None:
                r.ob("channel-initial", f.qual, tup(v, 0) == cs[0].val and tup(v, 1) == V("item", pr["initial"], const(1)), "the channel starts with %s" % show(v), a)
        elif none is True:
            r.ob("channel-initial", f.qual, v is None or is_none(v), "the channel starts with %s although nothing was given" % show(v), a)
    f = r.method("TelemetryEnvironment", "is_enum_channel")
    ch = V("sym", f.params[1])
    for p in r.paths(f, r.walker()):
        if p.kind != "exc":
            absent = any(v == V("cmp", "in", ch, types) and pol is False for _, v, pol, _ in assumes(p))
            if absent:
                r.ob("channel-type", f.qual, is_const(p.val, False), "a channel which holds no enumeration is said to", f)
            else:
                r.ob("channel-type", f.qual, not is_const(p.val), "the answer does not depend on the channel", f)
    # export
    f = r.method("EnumRegistry", "export") if isinstance(r.p.find_method(r.cls("EnumRegistry"), "export"), FI) else None
    C = next((c for c in r.p.classes if c.name == "EnumRegistry" and r.cls("Registry") in r.p.mro(c)), None)
    f = r.p.find_method(C, "export") if C else None
    if not isinstance(f, FI):
        raise Anchor("EnumRegistry.export")
    me = V("sym", "self").typed(("c", C))
    tr = V("sym", f.params[1])
    gm = V("item", V("attr", me, "data"), const("global_mappings"))
    n = 0
    for p in r.call(r.walker(opaque=METRICS | {"Registry.add", "Registry.get_id"}), V("bound", f, me), [tr]):
        if p.kind == "exc":
            continue
        adds = [e for e in p.events if e.kind == "call" and e.name == "add" and e.recv == tr]
        its = [e for e in p.events if e.kind == "iter"]
        known = [e for e in p.events if e.kind == "call" and e.name == "get_id" and e.recv == tr]
        st = [e for e in p.events if e.kind == "store" and e.recv == gm]
        r.ob("exported", f.qual, len(st) == len(adds), "%d types are recorded for %d added" % (len(st), len(adds)), f)
        for a, s in zip(adds, st):
            n += 1
            en = root_enum(a.args[0])
            r.ob("exported", f.qual, s.args[0] == V("item", a.val, const(1)) and en is not None and mentions_key(en, s.val), "the type recorded is not that of the enumeration", s)
        if is_const(p.val, True):
            r.ob("exported", f.qual, not left_early(p), "export ends before all enumerations were looked at", f)
            if any(e.kind == "iter" for e in p.events):
                r.ob("exported", f.qual, len(known) >= len(its), "an enumeration is not exported although export succeeds", f)
    r.ob("exported", f.qual, n > 0 or None, "no path exports an enumeration", f)


def root_enum(v):
    return v.a[0] if isinstance(v, V) and v.k == "attr" else None


def mentions_key(en, key):
    return en.k == "item" and en.a[1] == key or any(x == key for x in subterms(en))


def check(r):
    r.rule("from_enum is walked through the constructor for an arbitrary enum class: every member's value maps to its lower-cased name and back, one entry per member; init makes the reverse map from every mapping, lower-cased, and a default only "
           "when none was given. get_str reads the mapping, get_value and get_primitive look up the lower-cased name and fail for an unknown one; more members than the enumeration type can number are refused. For enum channels and metrics the "
           "enumeration used to convert is the one recorded for that very channel, which is the one named when it was added, recorded in the critical section that adds it, and the initial name is converted by it; export records each type's enumeration.")
    r.assume("Names of an enumeration are distinct when lower-cased.")
    both_ways(r)
    channels(r)
    r.require("names", "channel-enum", "channel-type")
