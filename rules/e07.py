"""E07: an environment's operations act on exactly the channel named, as asked."""
from rules._daemon import *

ME = V("sym", "self")
ACTS = {"TypePrimitive.set", "TypePrimitive.add", "Channel.command", "Channel.set_rate"}
OP = ACTS | {"TypePrimitive.get", "Registry.get_item", "Registry.get_id", "Registry.count", "Registry.get_name", "UserEnum.get_value", "UserEnum.get_str", "TimeEntity.get_time", "ChannelFramer.add_channel",
             "ChannelRegistry.add_channel", "Registry.add", "EnumRegistry.get_enum", "EnumRegistry.add_enum", "EnumRegistry.export"}
TEL, CHA = "TelemetryEnvironment", "ChannelEnvironment"
attr = lambda n: V("attr", ME, n)  # noqa
sym = lambda n: V("sym", n)  # noqa


def registry(v, name):
    return v in (attr(name + "_registry"), V("item", attr("registries"), const(name)))


def found(p, upto, recv, keys):
    """Whether recv is the channel the registry holds under one of the keys."""
    for e in p.events[:upto]:
        if e.kind == "call" and e.val == recv and e.name == "get_item" and registry(e.recv, "channel"):
            return bool(e.args) and e.args[0] in keys
    return None


def got_ids(p, name):
    return {e.val for e in p.events if e.kind == "call" and e.name == "get_id" and registry(e.recv, "channel") and list(e.args[:1]) == [name]}


def enums(p, keys):
    """The enumerations the path looked up for one of the channel's keys (others: those for something else)."""
    types = {V("item", attr("enum_channel_types"), k) for k in keys}
    types |= {e.val for e in p.events if e.kind == "call" and e.name in ("get", "__getitem__") and e.recv == attr("enum_channel_types") and e.args and e.args[0] in keys}
    return {e.val for e in p.events if e.kind == "call" and e.name == "get_item" and registry(e.recv, "enum") and e.args and e.args[0] in types}


def times(p):
    return {e.val for e in p.events if e.kind == "call" and e.name == "get_time" and e.recv == ME} | {attr("curr_time"), attr("time")}


def acts(p):
    items = {e.val for e in p.events if e.kind == "call" and e.name == "get_item"}
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fi is not None and e.fi.qual in ACTS or e.fi is None and e.recv in items and any(e.name == a.split(".")[1] for a in ACTS))]


def feasible(p):
    """No registry holds anything under a negative identifier."""
    neg = {e.val for e in p.events if e.kind == "call" and e.name == "get_item" and e.args and is_const(e.args[0]) and isinstance(cval(e.args[0]), int) and cval(e.args[0]) < 0}
    return not any(v.k == "cmp" and v.a[0] == "is" and v.a[1] in neg and is_none(v.a[2]) and not pol for _, v, pol, _e in assumes(p))


def command_does(r):
    """A channel's own command function does what it is asked to."""
    f = r.method("Channel", "command")
    value, time, add = (sym(x) for x in f.params[1:4])
    seen = set()
    for p in r.paths(f, r.walker(opaque=QUIET | ACTS | {"TypePrimitive.get"})):
        if p.kind == "exc":
            continue
        for i, e in acts(p):
            pol = next((pol for _, v, pol, _e in assumes(p, i) if v == add or v == V("app", "bool", add)), None)
            seen.add(pol)
            summed = e.name == "set" and e.args and any(lin_is_sum(e.args[0], b, value) for b in [V("attr", ME, "data")] + [x.val for x in p.events[:i] if x.kind == "call" and x.name == "get"])
            if e.name == "set" and summed:
                ok = pol
            elif e.name == "set":
                ok = pol is False and e.arg(0, "data") == value
            else:
                ok = e.name == "add" and pol is True and e.arg(0, "data") == value
            r.ob("command-does", f.qual, ok if e.recv == ME else False, "a command to %s the value %ss %s" % ("add to" if pol else "set", e.name, show(e.args[0]) if e.args else "nothing"), e)
            r.ob("command-time", f.qual, e.arg(1, "time") == time, "the time of a command becomes %s" % (show(e.arg(1, "time")) if e.arg(1, "time") is not None else "unset"), e)
        r.ob("command-once", f.qual, len(acts(p)) <= 1, "a command changes the channel %d times" % len(acts(p)), f)
    r.ob("command-does", f.qual, True if {True, False} <= seen else (None if None in seen else False), "a command cannot %s" % ("add" if True not in seen else "set"), f)


def lin_is_sum(v, a, b):
    return lin_eq(v, V("bin", "+", a, b))


class Spec:
    """What an operation is to do."""

    def __init__(self, cls, meth, by, act=None, value=None, time=None, enum=False, opt=False, ret=False):
        self.cls, self.meth, self.by, self.act, self.value, self.time, self.enum, self.opt, self.ret = cls, meth, by, act, value, time, enum, opt, ret


SPECS = [
    Spec(CHA, "set_now", "id", ("set",), 1, "now", ret=True),
    Spec(CHA, "get_value", "id"),
    Spec(CHA, "get_metric", "metric"),
    Spec(CHA, "set_channel_rate", "id", ("set_rate",), 1),
    Spec(CHA, "set_metric_rate", "metric", ("set_rate",), 1, opt=True),
    Spec(CHA, "set_metric", "metric", ("set",), 1, "time", opt=True),
    Spec(CHA, "metric_add", "metric", ("add",), 1, "time", opt=True),
    Spec(CHA, "command_channel_id", "id", ("command",), 1, "now", ret=True),
    Spec(CHA, "command_channel", "name", ("command",), 1, "now", opt=True, ret=True),
    Spec(TEL, "command_enum_channel_id", "id", ("command",), 1, "now", enum=True, ret=True),
    Spec(TEL, "command_enum_channel", "name", ("command",), 1, "now", enum=True, opt=True, ret=True),
    Spec(TEL, "set_enum_metric", "metric", ("set",), 1, "time", enum=True, opt=True),
    Spec(TEL, "set_enum_now", "id", ("set",), 1, "now", enum=True, ret=True),
    Spec(TEL, "get_enum_metric", "metric", enum=True),
    Spec(TEL, "get_enum_value", "id", enum=True),
]


def operation(r, s):
    f = r.method(s.cls, s.meth)
    first = sym(f.params[1])
    done = 0
    for p in r.paths(f, r.walker(opaque=OP, dict_errors=False, max_depth=6)):
        if not feasible(p):
            continue
        keys = {first} if s.by == "id" else ({V("item", attr("metrics"), first)} if s.by == "metric" else got_ids(p, first))
        if s.by == "metric":
            keys |= {e.val for e in p.events if e.kind == "call" and e.name == "get" and e.recv == attr("metrics") and list(e.args[:1]) == [first]}
        defs = enums(p, keys)
        did = acts(p)
        bad = [e for _, e in did if s.act is None or e.name not in s.act]
        r.ob("only-as-asked", f.qual, not bad, "%s calls %s of a channel" % (s.meth, bad[0].name if bad else ""), bad[0] if bad else f)
        for i, e in did:
            if e in bad:
                continue
            done += 1
            r.ob("channel-named", f.qual, found(p, i, e.recv, keys), "the channel used is %s" % show(e.recv), e)
            v = e.args[0] if e.args else next(iter(e.kw.values()), None)
            want = sym(f.params[1 + s.value])
            if s.enum:
                conv = [x for x in p.events[:i] if x.kind == "call" and x.name == "get_value" and x.val == v]
                r.ob("value-given", f.qual, (conv[-1].recv in defs and list(conv[-1].args[:1]) == [want]) if conv else False, "the channel is given %s" % show(v), e)
            else:
                r.ob("value-given", f.qual, v == want, "the channel is given %s" % show(v), e)
            if s.time is not None:
                t = e.arg(1, "time")
                ok = t in times(p) if s.time == "now" else t == sym("time") or t in times(p) and any(x == V("cmp", "is", sym("time"), NONE) and pol for _, x, pol, _e in assumes(p, i))
                r.ob("time-given", f.qual, ok, "the time of the change becomes %s" % (show(t) if t is not None else "unset"), e)
            if e.name == "command":
                a = e.arg(2, "add")
                r.ob("sets-not-adds", f.qual, a is None or is_const(a) and not cval(a), "the value is added to the channel", e)
        r.ob("once", f.qual, len(did) <= 1, "a channel is changed %d times" % len(did), f)
        if p.kind == "exc":
            continue
        if s.act is None:
            gets = [e for e in p.events if e.kind == "call" and e.name == "get" and (e.fi is None or e.fi.qual == "TypePrimitive.get")]
            val, conv = p.val, None
            if s.enum:
                conv = next((e for e in p.events if e.kind == "call" and e.name == "get_str" and e.val == p.val), None)
                r.ob("value-read", f.qual, conv is not None and conv.recv in defs, "%s returns %s" % (s.meth, show(p.val)), f)
                val = conv.args[0] if conv is not None and conv.args else None
            src = next((i for i, e in enumerate(p.events) if e in gets and e.val == val), None)
            ch = p.events[src].recv if src is not None else (val.a[0] if val is not None and val.k == "attr" and val.a[1] == "data" else None)
            done += 1
            r.ob("value-read", f.qual, found(p, len(p.events), ch, keys) if ch is not None else False, "%s returns %s" % (s.meth, show(val)), f)
            continue
        if not did:
            ok = False
            if s.opt:
                for _, v, pol, _e in assumes(p):
                    if s.by == "metric" and (v == V("cmp", "is", attr("metrics"), NONE) and pol or v == attr("metrics") and not pol or v.k == "cmp" and v.a[0] == "in" and v.a[1] == first and v.a[2] == attr("metrics") and not pol):
                        ok = True
                    if s.by == "metric" and v.k == "cmp" and v.a[0] == "is" and v.a[1] in keys and is_none(v.a[2]) and pol:
                        ok = True
                    if s.by == "name" and v.k == "cmp" and v.a[0] == "is" and v.a[1] in keys and is_none(v.a[2]) and pol:
                        ok = True
            r.ob("done", f.qual, ok, "%s returns without having changed anything" % s.meth, f)
            if s.ret:
                r.ob("result-told", f.qual, p.val is not None and is_const(p.val) and not cval(p.val), "a command for an unknown channel returns %s" % show(p.val), f)
        elif s.ret:
            e = did[-1][1]
            truth = [pol for _, v, pol, _e in assumes(p) if v == e.val]
            r.ob("result-told", f.qual, p.val == e.val or bool(truth) and p.val is not None and is_const(p.val) and bool(cval(p.val)) == truth[-1], "%s returns %s" % (s.meth, show(p.val) if p.val is not None else "nothing"), f)
    r.ob("done", f.qual, done > 0, "%s never does anything" % s.meth, f)


def rate(r):
    f = r.method("Channel", "set_rate")
    for p in r.paths(f, r.walker(opaque=QUIET)):
        if p.kind == "exc":
            continue
        wr = [e for e in p.events if e.kind == "write" and e.recv == ME]
        r.ob("rate-set", f.qual, [(e.name, e.val) for e in wr] == [("rate", sym(f.params[1]))], "setting the rate of a channel changes %s" % (", ".join("%s to %s" % (e.name, show(e.val)) for e in wr) or "nothing"), f)


def making(r):
    """add_channel makes the channel described."""
    f = r.method(CHA, "add_channel")
    reg = r.method("ChannelRegistry", "add_channel")
    n = 0
    ps = []
    for track in (True, False):
        me = ME.typed(("c", r.cls(CHA)))
        ps += [(track, p) for p in r.call(r.walker(opaque=OP), V("bound", f, me), [const(track) if x == "track_change" else sym(x) for x in f.params[1:]])]
    for track, p in ps:
        if p.kind == "exc":
            continue
        for i, e in enumerate(p.events):
            if e.kind != "call" or e.fi is not reg:
                continue
            n += 1
            c = e.args[0] if e.args else None
            at = lambda k: p.st.store.get(("A", c, k))  # noqa
            for k, want in (("name", "name"), ("rate", "rate"), ("type", "instance"), ("commandable", "commandable")):
                r.ob("made-as-described", f.qual, at(k) == sym(want) or (None if at(k) is None else False), "the %s of a channel added is %s" % (k, show(at(k)) if at(k) is not None else "?"), e)
            if at("changed_cb") is None:
                r.ob("tracked-as-asked", f.qual, None, "", e)
            cb = at("changed_cb")
            dead = any(v == V("cmp", "is", attr("event_queue"), NONE) and pol for _, v, pol, _e in assumes(p))
            if cb is not None and not dead:
                r.ob("tracked-as-asked", f.qual, is_none(cb) is not track if is_none(cb) or cb.k in ("func", "bound") else None, "a channel which is%s to be tracked %s changes" % ("" if track else " not", "does not report" if is_none(cb) else "reports"), e)
            given = next((not pol for _, v, pol, _e in assumes(p) if v == V("cmp", "is", sym("initial"), NONE)), None)
            if given is None:
                given = next((pol for _, v, pol, _e in assumes(p) if v == sym("initial")), None)
            sets = [x for _, x in acts(p) if x.recv == c]
            if given is not None:
                want = [[V("item", sym("initial"), const(0)), V("item", sym("initial"), const(1))]] if given else []
                r.ob("initial-given", f.qual, [list(x.args) for x in sets if x.name == "set"] == want and all(x.name == "set" for x in sets), "the initial value of a channel is %s" % (", ".join(show(a) for x in sets for a in x.args) or "not set"), sets[0] if sets else e)
                r.ob("initial-given", f.qual, all(p.events.index(x) < i for x in sets), "a channel is registered before it has its initial value", e)
            else:
                r.ob("initial-given", f.qual, None, "", e)
    r.ob("made-as-described", f.qual, n > 0, "no channel is registered", f)


def enum_making(r):
    f = r.method(TEL, "add_enum_channel")
    add = r.method(CHA, "add_channel")
    n = 0
    for p in r.paths(f, r.walker(opaque=OP | {CHA + ".add_channel"})):
        if p.kind == "exc":
            continue
        ids_ = {e.val for e in p.events if e.kind == "call" and e.name == "get_id" and registry(e.recv, "enum") and list(e.args[:1]) == [sym("enum_name")]}
        ids_ |= {V("item", e.val, const(1)) for e in p.events if e.kind == "call" and e.name == "get_enum"}
        defs = {e.val for e in p.events if e.kind == "call" and e.name == "get_item" and registry(e.recv, "enum") and e.args and e.args[0] in ids_}
        cs = [e for e in p.events if e.kind == "call" and e.fi is add]
        r.ob("made-as-described", f.qual, len(cs) == 1, "an enum channel makes %d channels" % len(cs), f)
        for e in cs:
            n += 1
            for i, k in ((0, "name"), (2, "rate"), (3, "track_change"), (5, "commandable")):
                got = e.arg(i, add.params[i + 1])
                r.ob("made-as-described", f.qual, got == sym(k), "the %s of an enum channel is %s" % (k, show(got) if got is not None else "the default"), e)
            ini = e.arg(4, "initial")
            none = next((pol for _, v, pol, _e in assumes(p) if v == V("cmp", "is", sym("initial"), NONE)), None)
            if none is None:
                r.ob("initial-given", f.qual, None, "", e)
            elif none:
                r.ob("initial-given", f.qual, ini is None or is_none(ini), "an enum channel without an initial value is given %s" % show(ini), e)
            else:
                a, b = (tup(ini, 0), tup(ini, 1)) if ini is not None else (None, None)
                conv = any(x.kind == "call" and x.name == "get_value" and x.val == a and x.recv in defs and list(x.args[:1]) == [V("item", sym("initial"), const(0))] for x in p.events)
                r.ob("initial-given", f.qual, conv and b == V("item", sym("initial"), const(1)), "the initial value of an enum channel is %s" % (show(ini) if ini is not None else "not given"), e)
            st = [x for x in p.events if x.kind == "store" and x.recv == attr("enum_channel_types")]
            r.ob("enum-kept", f.qual, len(st) == 1 and list(st[0].args[:1]) == [e.val] and st[0].val in ids_, "the enumeration of the new channel becomes %s" % (show(st[0].val) if st else "nothing"), st[0] if st else e)
            r.ob("enum-kept", f.qual, p.val == e.val, "adding an enum channel returns %s" % (show(p.val) if p.val is not None else "nothing"), f)
    r.ob("made-as-described", f.qual, n > 0, "no enum channel is made", f)


def metric_making(r):
    for cls, meth, src, rest in ((CHA, "add_metric", "add_channel", ("instance",)), (TEL, "add_enum_metric", "add_enum_channel", ("enum_name",))):
        f = r.method(cls, meth)
        add = r.method(cls, src)
        n = 0
        for p in r.paths(f, r.walker(opaque=(OP | {cls + "." + src, CHA + ".set_metric_rate", CHA + ".get_metric"}), dict_errors=False)):
            if p.kind == "exc":
                continue
            cs = [e for e in p.events if e.kind == "call" and e.fi is add]
            for e in cs:
                n += 1
                got = [e.arg(i, add.params[i + 1]) for i in (0, 1, 3, 4)]
                r.ob("made-as-described", f.qual, got == [sym(x) for x in ("name",) + rest + ("track_change", "initial")], "a metric is made with %s" % ", ".join(show(x) if x is not None else "-" for x in got), e)
                st = [x for x in p.events if x.kind == "store" and x.recv == attr("metrics")]
                r.ob("metric-kept", f.qual, len(st) == 1 and list(st[0].args[:1]) == [sym("name")] and st[0].val == e.val, "the channel of a new metric is kept as %s" % (show(st[0].val) if st else "nothing"), st[0] if st else e)
                rs = [(i, x) for i, x in enumerate(p.events) if x.kind == "call" and x.name == "set_metric_rate"]
                want = [x.val for x in p.events if x.kind == "call" and x.name == "get_metric" and list(x.args[:1]) == [const("metrics_rate")]]
                r.ob("metric-rate", f.qual, len(rs) == 1 and list(rs[0][1].args[:1]) == [sym("name")] and rs[0][1].arg(1, "rate") in want, "a new metric is emitted at %s" % (show(rs[0][1].arg(1, "rate")) if rs else "no rate"), rs[0][1] if rs else e)
            if not cs:
                off = any(v == V("cmp", "is", attr("metrics"), NONE) and pol or v == attr("metrics") and not pol or v.k == "cmp" and v.a[0] == "in" and v.a[1] == sym("name") and v.a[2] == attr("metrics") and pol for _, v, pol, _e in assumes(p))
                r.ob("done", f.qual, off, "a new metric is not added", f)
        r.ob("made-as-described", f.qual, n > 0, "no metric is made", f)


def makes(e, init):
    return e.kind == "new" and e.name == init.cls.name or e.kind == "call" and e.fi is init and e.recv != ME


def constructing(r):
    """An environment starts with exactly the channels and settings given."""
    f = r.method(CHA, "__init__")
    fr = r.method("ChannelFramer", "__init__")
    rg = r.method("ChannelRegistry", "__init__")
    given = sym("initial_channels")
    w = r.walker(opaque=OP | {"ChannelFramer.__init__", "ChannelRegistry.__init__", "EventQueue.__init__", "MeteredQueue.__init__", CHA + ".register_base_metrics", "TimeEntity.__init__"})
    for p in r.paths(f, w):
        if p.kind == "exc":
            continue
        none = next((pol for _, v, pol, _e in assumes(p) if v == V("cmp", "is", given, NONE)), None)
        regs = [e for e in p.events if makes(e, rg)]
        frs = [e for e in p.events if makes(e, fr)]
        r.ob("starts-with", f.qual, len(regs) == 1 and len(frs) == 1, "an environment makes %d registries and %d framers" % (len(regs), len(frs)), f)
        empty = lambda v: v is None or is_none(v) or v.k == "obj" and p.st.store.get(("C", v)) == () or v.k == "obj" and not p.st.store.get(("C", v), True)  # noqa
        for e in regs:
            v = e.arg(0, "initial_channels")
            r.ob("starts-with", f.qual, v == given or (none is True and empty(v)) or (None if none is not False and v is not None and v.k == "obj" else False), "the registry starts with %s" % (show(v) if v is not None else "nothing"), e)
        for e in frs:
            v = e.arg(2, fr.params[3])
            r.ob("starts-with", f.qual, (v == given if none is not True else empty(v)) or (None if none is None and v is not None and mentions(v, given) else False), "the framer starts with %s" % (show(v) if v is not None else "nothing"), e)
            want = {0: ("mtu", sym("mtu")), 3: ("lock", attr("lock")), 4: ("app_id_basis", sym("app_id_basis")), 5: ("use_crc", sym("use_crc"))}
            for i, (k, x) in want.items():
                g = e.arg(i, fr.params[i + 1])
                if k == "lock":
                    continue
                r.ob("settings-kept", f.qual, g == x, "the framer's %s is %s" % (k, show(g) if g is not None else "the default"), e)
        ms = [e for e in p.events if e.kind == "call" and e.name == "register_base_metrics"]
        off = next((pol for _, v, pol, _e in assumes(p) if v == V("cmp", "is", sym("metrics_rate"), NONE)), None)
        if off is not None:
            r.ob("settings-kept", f.qual, [list(e.args) for e in ms] == ([] if off else [[sym("metrics_rate")]]), "metrics are %s" % ("registered" if ms else "not registered"), ms[0] if ms else f)
        else:
            r.ob("settings-kept", f.qual, None if not ms else False, "metrics are registered whether or not a rate is given", f)
        te = [e for e in p.events if e.kind == "call" and e.fi is not None and e.fi.qual == "TimeEntity.__init__"]
        r.ob("settings-kept", f.qual, len(te) == 1 and sym("init_time") in list(te[0].args) + list(te[0].kw.values()), "the environment does not start at the time given", te[0] if te else f)
    g = r.method(TEL, "__init__")
    w = r.walker(opaque=OP | {CHA + ".__init__", "EnumRegistry.__init__", CHA + ".add_metric"})
    for p in r.paths(g, w):
        if p.kind == "exc":
            continue
        cs = [e for e in p.events if e.kind == "call" and e.fi is f]
        r.ob("settings-kept", g.qual, len(cs) == 1, "the base of an environment is constructed %d times" % len(cs), g)
        for e in cs:
            for i, k in enumerate(f.params[1:]):
                v = e.arg(i, k)
                r.ob("settings-kept", g.qual, v == sym(k), "an environment's %s is %s" % (k, show(v) if v is not None else "the default"), e)
        es = [e for e in p.events if makes(e, r.method("EnumRegistry", "__init__"))]
        r.ob("starts-with", g.qual, len(es) == 1 and es[0].arg(0, "initial_enums") == sym("initial_enums"), "an environment does not start with the enumerations given", es[0] if es else g)


def base(r):
    """The metrics the environments publish by name are registered with a metrics rate."""
    f = r.method(CHA, "register_base_metrics")
    add = r.method(CHA, "add_metric")
    rate_ = sym(f.params[1])
    names = {}
    for cls in (CHA, TEL):
        for g, evs in r.graph().evs.items():
            if g.cls is not r.cls(cls):
                continue
            for e in evs:
                if e.kind == "call" and e.name in ("set_metric", "metric_add", "get_metric") and e.args and is_const(e.args[0]):
                    names.setdefault(cval(e.args[0]), e)
    some = False
    t = r.method(TEL, "__init__")
    late = set()
    for p in r.paths(t, r.walker(opaque=OP | {CHA + ".__init__", "EnumRegistry.__init__", CHA + ".add_metric"})):
        late |= {cval(e.args[0]) for e in p.events if e.kind == "call" and e.fi is add and e.args and is_const(e.args[0])}
        off = next((pol for _, v, pol, _e in assumes(p) if v == V("cmp", "is", attr("metrics"), NONE)), None)
        if p.kind != "exc" and off is False:
            mine = {cval(e.args[0]) for e in p.events if e.kind == "call" and e.fi is add and e.args and is_const(e.args[0])}
            r.ob("base-metrics", t.qual, late <= mine or None, "", t)
    for p in r.paths(f, r.walker(opaque=OP | {CHA + ".add_metric", CHA + ".set_metric"})):
        if p.kind == "exc":
            continue
        had = any(v == V("cmp", "is", attr("metrics"), NONE) and not pol or v == attr("metrics") and pol for _, v, pol, _e in assumes(p))
        cs = [e for e in p.events if e.kind == "call" and e.fi is add]
        if had and not cs:
            continue
        some = True
        mine = {cval(e.args[0]): e for e in cs if e.args and is_const(e.args[0])}
        wr = [i for i, e in enumerate(p.events) if e.kind == "write" and e.recv == ME and e.name == "metrics"]
        r.ob("base-metrics", f.qual, bool(wr) and all(p.events.index(e) > wr[0] for e in cs), "metrics are added before there is a table for them", f)
        for k, at in names.items():
            r.ob("base-metrics", f.qual, k in mine or k in late or None if len(mine) < len(cs) else k in mine or k in late, "the metric %s is never registered" % k, at)
        e = mine.get("metrics_rate")
        if e is not None:
            ini = e.arg(3, "initial")
            r.ob("base-metrics", f.qual, cs[0] is e, "a metric is added before the rate it is to have is known", cs[0])
            r.ob("base-metrics", f.qual, ini is not None and tup(ini, 0) == rate_, "the metrics rate starts as %s" % (show(ini) if ini is not None else "nothing"), e)
    r.ob("base-metrics", f.qual, some, "no metrics are registered", f)


def check(r):
    r.rule("Every operation of an environment on a channel (set_now, get_value, get_metric, set_metric, metric_add, the rates, the commands and their enumeration forms) is walked with any state: the channel used is the one the channel registry holds under the identifier given, "
           "under the identifier registered for the name given, or under the metric's own; it is changed once, in the way asked, to the value given (converted by the enumeration kept for that channel) and at the time given or the current time; what it answers is that call's result; "
           "it does nothing only when metrics are off or the name is unknown. A channel's command sets or adds as asked. add_channel, add_enum_channel and the metrics make the channel described, with its initial value, and keep its enumeration or metric under its own identifier; "
           "the constructors hand on every setting and the initial channels and enumerations.")
    command_does(r)
    rate(r)
    for s in SPECS:
        operation(r, s)
    making(r)
    enum_making(r)
    metric_making(r)
    constructing(r)
    base(r)
    r.require("command-does", "channel-named", "value-given", "value-read", "made-as-described")
