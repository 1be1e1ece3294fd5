"""D03: operations on daemons report failure unless they took effect."""
from rules._daemon import *

EFFECT = {"START": ("start", {"STARTING", "RUNNING"}), "STOP": ("stop", {"STOPPING", "IDLE"}), "PAUSE": ("pause", {"PAUSED"}),
          "UNPAUSE": ("unpause", {"IDLE", "RUNNING"}), "RESTART": ("restart", set())}
ACTS = ("start", "stop", "pause", "unpause", "restart", "begin_stop")


def outcome(r, kind, name, p, calls, at):
    """The path's result must be false unless every call result is known (or returned) true."""
    v = p.val
    if tup(v, 0) is not None:
        v = tup(v, 0)
    if not calls:
        return
    pol = {}
    for _, x, pl, _e in assumes(p):
        pol[x] = pl
    res = [c.val for c in calls]
    if v is None:
        r.ob(kind, name, False, "nothing is reported", at)
    elif is_const(v) and cval(v):
        r.ob(kind, name, all(pol.get(c) is True for c in res), "success is reported whatever the result of an operation", at)
    elif is_const(v):
        r.ob(kind, name, any(pol.get(c) is False for c in res), "failure is reported although every operation succeeded", at)
    else:
        r.ob(kind, name, True if len(res) == 1 and v == res[0] else None, "result is %s" % show(v), at)


def check(r):
    r.rule("Each operation in each state of a constructed daemon either returns true without acting (already in effect) or returns the result of exactly its own "
           "action; operations which are not known return false without acting; the manager reaches only the daemon named, returns its result, and reports a "
           "group success only on paths where each result was true; registering a taken name changes nothing and returns false.")
    L = Life(r)
    OP = r.cls("DaemonOperation")
    w = r.walker(opaque=QUIET | {"DaemonBase." + x for x in ACTS})
    built = r.construct(w, L.base, kw={"env": NONE, "time_keeper": NONE})
    if not built:
        raise Anchor("DaemonBase cannot be constructed")
    perform = L.ops["perform"]
    ops = [m for m in OP.assigns if not m.startswith("_")]
    for m in EFFECT:
        if m not in ops:
            raise Anchor("DaemonOperation." + m)
    for me, st0 in built:
        for m in ops:
            for s in L.members:
                st = st0.copy() if hasattr(st0, "copy") else st0
                st.store[("A", me, "state")] = V("enum", L.states, s)
                for p in r.call(w, V("bound", perform, me), [V("enum", OP, m)], st=st):
                    acts = [e for e in p.events if e.kind == "call" and e.fi is not None and e.name in ACTS and e.recv == me]
                    c = "%s-while-%s" % (m, s)
                    if m not in EFFECT:
                        r.ob("no-action", c, p.kind != "exc" and not acts and p.val is not None and is_const(p.val) and not cval(p.val), "operation %s does something" % m, perform)
                        continue
                    fn, skip = EFFECT[m]
                    if p.kind == "exc":
                        r.ob("performs", c, False, "operation %s raises %s while %s" % (m, p.exc_name, s), perform)
                    elif s in skip:
                        r.ob("in-effect", c, not acts and p.val is not None and is_const(p.val) and bool(cval(p.val)), "%s while %s acts or is not a success" % (m, s), perform)
                    else:
                        r.ob("performs", c, [e.name for e in acts] == [fn] and p.val == acts[0].val, "%s while %s runs %s and returns %s" % (m, s, [e.name for e in acts], show(p.val)), perform)
                        if m in ("START", "RESTART") and len(acts) == 1:
                            e = acts[0]
                            r.ob("arguments", c, any(mentions(a, V("sym", "*args")) for a in e.args) and any(mentions(a, V("sym", "**kwargs")) for a in e.kw.values()),
                                 "the operation's arguments are dropped", e)
    # by name
    for cls, nm in (("DaemonBase", "perform_str"), ("DaemonManager", "perform_str"), ("DaemonManager", "perform_str_all")):
        f = r.method(cls, nm)
        inner = {"DaemonBase.perform", "DaemonManager.perform", "DaemonManager.perform_all"}
        w2 = r.walker(opaque=QUIET | inner)
        known = 0
        for p in r.paths(f, w2):
            calls = [e for e in p.events if e.kind == "call" and e.fi is not None and e.fi.qual in inner]
            hit = [e for e in p.events if e.kind == "iter" and e.args and e.args[0].k == "class" and e.args[0].a[0] is OP]
            cmp_ = [(v, pol) for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "=="]
            # which member was matched
            match = None
            for v, pol in cmp_:
                if pol:
                    for x in v.a[1:]:
                        if is_const(x) and isinstance(cval(x), str):
                            match = cval(x)
            if p.kind == "exc":
                r.ob("named-never-raises", f.qual, False, "%s raises %s" % (nm, p.exc_name), f)
            elif not calls:
                r.ob("unknown-operation", f.qual, p.val is not None and is_const(p.val) and not cval(p.val) and match is None, "%s returns %s without operating" % (nm, show(p.val)), f)
            else:
                known += 1
                e = calls[0]
                op = [a for a in e.args if a.k == "enum" and a.a[0] is OP]
                r.ob("named-operation", f.qual, len(calls) == 1 and p.val == e.val and len(op) == 1 and (match is None and op[0].a[1] in EFFECT or op[0].a[1].lower() == match),
                     "%s performs %s" % (match, [show(a) for a in e.args]), e)
                if nm == "perform_str" and cls == "DaemonManager":
                    r.ob("named-daemon", f.qual, e.arg(0, "name") == V("sym", "name"), "another daemon is operated on", e)
                r.ob("named-arguments", f.qual, any(mentions(a, V("sym", "*args")) for a in e.args) and any(mentions(a, V("sym", "**kwargs")) for a in e.kw.values()),
                     "the operation's arguments are dropped", e)
        r.ob("named-reaches-all", f.qual, known >= len(EFFECT), "%d of %d operations can be named" % (known, len(ops)), f)
    # manager
    M = r.cls("DaemonManager")
    me = V("sym", "self")
    table = V("attr", me, "daemons")
    f = r.method("DaemonManager", "perform")
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET | {"DaemonBase.perform"})):
        name = V("sym", "name")
        calls = [e for e in p.events if e.kind == "call" and e.name == "perform" and e.recv is not None and e.recv != me]
        if p.kind == "exc":
            r.ob("unknown-daemon", f.qual, False, "operating on a daemon raises %s" % p.exc_name, f)
            continue
        r.ob("lookup-harmless", f.qual, not mutations(p, me), "operating on a daemon changes the manager", f)
        if not calls:
            r.ob("unknown-daemon", f.qual, p.val is not None and is_const(p.val) and not cval(p.val), "an unknown daemon gives %s" % show(p.val), f)
            known = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == name and v.a[2] == table and pol for _, v, pol, _e in assumes(p))
            gone = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            r.ob("known-daemon", f.qual, not known or gone, "a registered daemon is not operated on", f)
            continue
        n += 1
        e = calls[0]
        who = e.recv
        ok = who == V("item", table, name) or any(x.kind == "call" and x.val == who and x.args[:1] == (name,) for x in p.events) or \
            any(x.kind == "call" and x.val == who and list(x.args[:1]) == [name] for x in p.events)
        r.ob("known-daemon", f.qual, len(calls) == 1 and ok and e.arg(0, "action") == V("sym", "operation"), "%d daemons are operated on" % len(calls), e)
        r.ob("daemon-result", f.qual, p.val == e.val, "the daemon's result is not reported", e)
    r.ob("manager-reaches", f.qual, n > 0, "the manager operates on no daemon", f)
    # group result
    f = r.method("DaemonManager", "perform_all")
    w3 = r.walker(opaque=QUIET | {"DaemonManager.perform"}, max_depth=4, loop=(0, 1, 2), while_max=3)
    n = 0
    for p in r.paths(f, w3):
        calls = [e for e in p.events if e.kind == "call" and e.name == "perform" and e.fi is not None]
        if p.kind == "exc" or p.val is None:
            continue
        n += bool(calls)
        outcome(r, "group-result", f.qual, p, calls, f)
    r.ob("group-reaches", f.qual, n > 0, "no operation reaches a daemon", f)
    # registration
    f = r.method("DaemonManager", "add_daemon")
    for p in r.paths(f):
        d = V("sym", "daemon")
        name = V("attr", d, "name")
        muts = mutations(p, me)
        if p.kind == "exc":
            r.ob("taken-name", f.qual, not muts, "a refused daemon leaves something behind", f)
            continue
        good = is_const(p.val) and bool(cval(p.val))
        if not good:
            r.ob("taken-name", f.qual, not muts, "a refused daemon leaves something behind", f)
            continue
        st = [(i, e) for i, e in muts if e.kind == "store" and e.recv == table]
        ok = len(st) == 1 and st[0][1].args[0] == name and st[0][1].val == d and absent_before(p, st[0][0], table, name) is not None
        r.ob("unique-name", f.qual, ok, "a daemon is registered without its name being free", f)
        dep = [(i, e) for i, e in muts if e.kind == "store" and e.recv == V("attr", me, "depends_on")]
        r.ob("dependencies-kept", f.qual, len(dep) == 1 and dep[0][1].args[0] == name and dep[0][1].val == V("sym", "depends_on"), "the dependencies are not stored under the daemon's name", f)
    # the command
    f = r.func("vtelem.factories.daemon_manager", "create_daemon_manager_commander")
    regs = []
    for p in r.paths(f, r.walker(opaque=QUIET | {"CommandQueueDaemon.register_consumer"})):
        regs += [a for e in p.events if e.kind == "call" and e.name == "register_consumer" for a in e.args if a.k in ("func", "bound")]
    hs = {a.a[0] for a in regs}
    r.ob("command-registered", f.qual, len(hs) == 1 if hs else None, "the daemon command has %d handlers" % len(hs), f)
    for h in hs:
        w4 = r.walker(opaque=QUIET | {"DaemonManager.perform_str", "DaemonManager.states"}, loop=(0, 1, 2), max_paths=8000)
        for p in r.paths(h, w4):
            if p.kind == "exc":
                continue
            calls = [e for e in p.events if e.kind == "call" and e.name == "perform_str"]
            if left_early(p):
                r.ob("command-all", h.qual, None, "loop left early", h)
                continue
            outcome(r, "command-result", h.qual, p, calls, h)
            who = [e.arg(0, "name") for e in calls]
            r.ob("command-all", h.qual, len(set(who)) == len(who), "a daemon is operated on twice", h)
            its = [e.val for e in p.events if e.kind == "iter" and e.args and e.args[0].k != "class" and e.val.k != "enum"]
            miss = [x for x in its if x not in who and any(y == x for y in its)]
            if calls:
                r.ob("command-all", h.qual, True if not miss else None, "a daemon named is not operated on", h)
    r.require("performs", "in-effect", "unknown-operation", "known-daemon", "unique-name", "group-result", "command-result")
