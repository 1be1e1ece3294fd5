"""E02: adding a channel or enum either fully succeeds or leaves no trace."""
from rules._daemon import *

REST = {"ChannelEnvironment.set_metric_rate", "ChannelEnvironment.get_metric", "EnumRegistry.export"}
SELF = V("sym", "self")


def scheduled(e):
    """The channel an event schedules for emission."""
    if e.kind == "call" and e.fi is None and e.name in ("append", "insert", "add") and e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "channels" and e.args:
        return e.args[-1]
    return None


def check(r):
    r.rule("Every path through adding a channel, enum channel, metric, enum metric or enum, with every assertion failing or holding: a path which raises or refuses has changed no object that existed before; "
           "a path which succeeds has registered exactly one new channel, scheduled that same channel exactly once, and returns (or records as the metric's or enum channel's id) the id it was registered under, all under one acquisition of the environment's lock.")
    r.assume("Exporting the enum registry succeeds for enums which are registered already (their ids never change).")
    entries = [("ChannelEnvironment", "add_channel"), ("ChannelEnvironment", "add_metric"), ("TelemetryEnvironment", "add_channel"), ("TelemetryEnvironment", "add_enum_channel"), ("TelemetryEnvironment", "add_metric"),
               ("TelemetryEnvironment", "add_enum_metric"), ("TelemetryEnvironment", "add_enum")]
    lock = V("attr", SELF, "lock")
    good = {}
    for c, m in entries:
        f = r.p.find_method(r.cls(c), m)
        if f is None:
            raise Anchor("%s.%s" % (c, m))
        me = SELF.typed(("c", r.cls(c)))
        w = r.walker(opaque=(QUIET | REST) - {f.qual}, assert_fork=True, max_paths=20000)
        name = "%s.%s" % (c, m)
        for p in r.call(w, V("bound", f, me), [V("sym", x) for x in f.params[1:]]):
            muts = [(i, e) for i, e in mutations(p) if not (e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "lock")]
            exported = [x.val for x in p.events if x.kind == "call" and x.name == "export"]
            if any(v in exported and not pol for _, v, pol, _e in assumes(p)):
                continue  # see the assumption
            if p.kind == "exc":
                for i, e in muts:
                    r.ob("no-trace", name, False, "a refused addition leaves behind %s of %s" % (e.name or "an entry", show(e.recv)), e)
                r.ob("no-trace", name, True, "", f)
                continue
            regs = [(i, e) for i, e in muts if e.kind == "store" and e.recv.k == "item" and not is_const(e.recv.a[1], "mappings")
                    and e.recv.a[0].k == "attr" and e.recv.a[0].a[1] == "data" and e.val.k == "obj"]
            maps = [(i, e) for i, e in muts if e.kind == "store" and e.recv.k == "item" and is_const(e.recv.a[1], "mappings")]
            scheds = [(i, e) for i, e in muts if scheduled(e) is not None]
            if m == "add_enum":
                new = [(i, e) for i, e in muts if e.kind == "store" and e.recv.k == "item" and not is_const(e.recv.a[1], "mappings") and e.val == V("sym", f.params[1])]
                if not new:
                    # known already: the id it has
                    r.ob("known-enum", name, not muts, "adding a known enum changes %s" % show(muts[0][1].recv) if muts else "", f)
                    ok = p.val is not None and (p.val.k == "item" and is_const(p.val.a[0].a[1], "mappings") if p.val.k == "item" and p.val.a[0].k == "item" else None)
                    r.ob("returns-id", name, ok, "returns %s" % show(p.val), f)
                    continue
                good[name] = good.get(name, 0) + 1
                r.ob("registered-once", name, len(new) == 1 and any(e.val == new[0][1].args[0] for _, e in maps), "an enum is registered %d times" % len(new), new[-1][1])
                r.ob("returns-id", name, p.val == new[0][1].args[0], "the id returned (%s) is not the id the enum was registered under" % show(p.val), f)
                exp = [x for x in p.events if x.kind == "call" and x.name == "export"]
                r.ob("exported", name, len(exp) >= 1, "an enum is added without being given a type", f)
                r.ob("atomic", name, all(held(x, lock) is not None and held(x, lock) == held(new[0][1], lock) for x in [e for _, e in new + maps] + exp), "an enum is not registered in one atomic step", new[0][1])
                continue
            if not regs and not scheds:
                r.ob("no-trace", name, not muts, "nothing is added but %s is changed" % (show(muts[0][1].recv) if muts else ""), f)
                r.ob("refusal-reported", name, m in ("add_metric", "add_enum_metric") or p.val is not None and is_none(p.val) or p.val is not None and p.val.k == "const" and not isinstance(cval(p.val), bool) and cval(p.val) < 0,
                     "an addition which does nothing returns %s" % show(p.val), f)
                continue
            good[name] = good.get(name, 0) + 1
            r.ob("registered-once", name, len(regs) == 1, "the channel is registered %d times" % len(regs), (regs or scheds)[-1][1])
            r.ob("scheduled-once", name, len(scheds) == 1, "the channel is scheduled %d times" % len(scheds), (scheds or regs)[-1][1])
            if len(regs) != 1 or len(scheds) != 1:
                continue
            rid = regs[0][1].args[0]
            chan = regs[0][1].val
            r.ob("same-channel", name, scheduled(scheds[0][1]) == chan, "another channel is scheduled than registered", scheds[0][1])
            r.ob("new-channel", name, any(e.kind == "new" and e.val == chan for e in p.events), "the channel registered is not the new one", regs[0][1])
            r.ob("named", name, any(e.val == rid and (e.args[0] == V("sym", "name") or e.args[0] == p.st.store.get(("A", chan, "name"))) for _, e in maps), "the channel is not registered under its name", regs[0][1])
            todo = regs + scheds + maps
            extra = [(i, e) for i, e in muts if e.kind == "store" and e.recv.k == "attr" and e.recv.a[1] in ("metrics", "enum_channel_types")]
            a = held(regs[0][1], lock)
            r.ob("atomic", name, a is not None and all(held(e, lock) == a for _, e in todo + extra), "registering and scheduling are not one atomic step", regs[0][1])
            if m in ("add_metric", "add_enum_metric"):
                ms = [e for _, e in extra if e.recv.a[1] == "metrics"]
                r.ob("returns-id", name, len(ms) == 1 and ms[0].val == rid and ms[0].args[0] == V("sym", f.params[1]), "the metric is recorded under another id than its channel's", ms[0] if ms else f)
            else:
                r.ob("returns-id", name, p.val == rid, "the id returned (%s) is not the id the channel was registered under" % show(p.val), f)
            if "enum" in m:
                es = [e for _, e in extra if e.recv.a[1] == "enum_channel_types"]
                r.ob("enum-recorded", name, len(es) == 1 and es[0].args[0] == rid and es[0].val.k == "item" and mentions(es[0].val, V("sym", "enum_name")),
                     "the channel's enum is not recorded under its id", es[0] if es else f)
            evs = [e for _, e in muts if mentions(e.recv, V("attr", SELF, "event_queue"))]
            for e in evs:
                r.ob("event-atomic", name, held(e, lock) == a, "the initial change is captured outside the atomic step", e)
                ok = any(v == V("sym", "track_change") and pol for _, v, pol, _e in assumes(p)) and any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == V("sym", "initial") and not pol for _, v, pol, _e in assumes(p))
                r.ob("event-wanted", name, ok or None, "a change is captured although changes are not tracked or there is no initial value", e)
    for c, m in entries:
        n = "%s.%s" % (c, m)
        r.ob("reaches", n, good.get(n, 0) > 0 or None, "no successful path", "")
    r.require("no-trace", "registered-once", "scheduled-once", "atomic", "returns-id")
