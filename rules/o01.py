"""O01: reporting is optional: without an environment or metrics everything else works."""
import ast

from rules._daemon import *
from vsa.walk import St

SELF = V("sym", "self")
# what a component receives, sends or decodes are an environment's channels: these need one to work at all
NEED = {"WebsocketTelemetryDaemon", "TcpTelemetryDaemon", "FileClient", "SocketClient", "TcpClient", "UdpClient", "WebsocketClient", "ChannelGroup", "ChannelGroupRegistry"}
UPDATES = (("ChannelEnvironment", "add_metric"), ("ChannelEnvironment", "set_metric"), ("ChannelEnvironment", "metric_add"), ("ChannelEnvironment", "set_metric_rate"), ("ChannelEnvironment", "has_metric"),
           ("TelemetryEnvironment", "add_enum_metric"), ("TelemetryEnvironment", "set_enum_metric"))
GET = {"get_metric", "get_enum_metric"}


def none_used(e):
    """A use of None as an object."""
    if e.kind in ("call", "write", "store", "del", "read", "readitem", "iter", "enter_ctx") and (e.recv == NONE or e.kind == "iter" and e.args and e.args[0] == NONE):
        return True
    for v in (e.recv, e.val) + tuple(e.args or ()) + tuple((e.kw or {}).values() if e.kind in ("call", "new") else ()):
        if isinstance(v, V) and any(x.k in ("attr", "item") and x.a[0] == NONE or x.k == "cmp" and x.a[0] == "in" and x.a[2] == NONE for x in subterms(v)):
            return True
    return False


def asserted(e, fld):
    """Does an assertion (or a test guarding a raise) about the field itself fail here?"""
    n = e.node
    return isinstance(n, ast.Assert) and any(isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) == fld for x in ast.walk(n.test))


def optional(ci, name):
    """Does the constructor of a class take `name` with None as its default?"""
    f = ci.methods.get("__init__") if hasattr(ci, "methods") else None
    if f is None:
        return False
    a = f.node.args
    ps = a.posonlyargs + a.args
    for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name and d is not None and getattr(d, "value", 0) is None:
            return True
    return False


def check(r):
    r.rule("The functions of environments which add, set and rate metrics are walked with metrics off: every path ends normally and changes nothing; walked with metrics on, a path on which the named metric is not registered changes nothing and ends normally when setting. "
           "Every method of a daemon, queue, state or state machine which takes an optional environment is walked without one: no path uses the absent environment or metrics, or asserts them present. The functions reading a metric's value, which need metrics, "
           "are only called by library code where metrics were found on.")
    r.assume("Components which frame or decode an environment's channels need that environment and are exempt: %s." % ", ".join(sorted(NEED)))
    # environments without metrics
    for cn, m in UPDATES:
        f = r.method(cn, m)
        st = St()
        st.store[("A", SELF, "metrics")] = NONE
        n = 0
        for p in r.paths(f, r.walker(opaque=set(), assert_fork=True), st=st):
            n += 1
            mu = mutations(p)
            r.ob("off-does-nothing", f.qual, not mu, "with metrics off, %s changes something" % m, mu[0][1] if mu else f)
            r.ob("off-never-fails", f.qual, p.kind != "exc" and not any(none_used(e) for e in p.events), "with metrics off, %s fails" % m, f)
            if m == "has_metric":
                r.ob("off-never-fails", f.qual, p.val == FALSE, "with metrics off, a metric is registered: %s" % show(p.val), f)
    for cn, m in (("ChannelEnvironment", "set_metric"), ("ChannelEnvironment", "metric_add"), ("TelemetryEnvironment", "set_enum_metric")):
        f = r.method(cn, m)
        nm = V("sym", f.params[1])
        for p in r.paths(f, r.walker(opaque={"TypePrimitive.set", "TypePrimitive.add"}, assert_fork=True)):
            known = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "in" and v.a[1] == nm and v.a[2].k == "attr" and v.a[2].a[1] == "metrics"]
            used = [e for e in p.events if e.kind != "assume" and any(isinstance(x, V) and x.k == "item" and x.a[1] == nm and x.a[0].k == "attr" and x.a[0].a[1] == "metrics" for y in (e.recv, e.val) + tuple(e.args or ()) if isinstance(y, V) for x in subterms(y))]
            look = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and not pol and any(e.kind == "call" and e.name == "get" and e.val == v.a[1] and nm in e.args for e in p.events) for _, v, pol, _e in assumes(p))
            r.ob("unknown-does-nothing", f.qual, not used or True in known or look, "a metric is looked up without knowing that it is registered", used[0] if used else f)
            if False in known:
                sets = [e for e in p.events if e.kind == "call" and e.name in ("set", "add", "set_now")]
                r.ob("unknown-does-nothing", f.qual, p.kind != "exc" and not sets and not mutations(p), "setting an unknown metric %s" % ("fails" if p.kind == "exc" else "changes something"), f)
    # components without an environment
    n = 0
    fields = {}
    for c in r.p.classes:
        if c.name in NEED or not optional(c, "env"):
            continue
        fields[c] = "env" if any(e.kind == "write" and e.recv == SELF and e.name == "env" for b in r.p.mro(c) for g in [r.p.find_method(b, "__init__")] if g for e in r.graph().evs.get(g, ())) else "metrics"
    done = set()
    for c, fld in sorted(fields.items(), key=lambda x: x[0].name):
        for f in r.p.functions:
            top = f
            while top.parent is not None:
                top = top.parent
            if top.cls is not c or f.is_static or (f, fld) in done or f.is_lambda or (not f.name.startswith("_") and r.private(f)):
                continue
            done.add((f, fld))
            if f.name == "__init__" and f.parent is None:
                w = r.walker(assert_fork=True, try_raise=False, opaque={"create"})
                ps = w.entry(f, kw={"env": NONE})
                r.note_walk(w, ps, f.qual)
            else:
                try:
                    st = St()
                    st.store[("A", SELF, fld)] = NONE
                    w = r.walker(assert_fork=True, try_raise=False, opaque=set(), inline_pred=lambda fi, st: fi.cls is not None and fi.cls in r.p.mro(c) and fi.name not in ("__init__",), max_depth=4)
                    if f.parent is None:
                        ps = w.entry(f, st=st)
                    else:
                        s2, pid = w.closure_state(f)
                        s2.store[("A", SELF, fld)] = NONE
                        ps = w.entry(f, st=s2, closure=pid)
                    r.note_walk(w, ps, f.qual)
                except ValueError:
                    continue
            n += 1
            for p in ps:
                bad = [e for e in p.events if e.kind != "assume" and none_used(e)]
                r.ob("without-environment", f.qual, not bad, "%s is used although there is none" % fld, bad[0] if bad else f)
                last = [e for e in p.events if e.kind == "raise"][-1:] if p.kind == "exc" else []
                r.ob("without-environment", f.qual, not (last and asserted(last[0], fld)), "the absence of %s is an error" % fld, last[0] if last else f)
    # readers
    g = r.graph()
    readers = {r.method("ChannelEnvironment", "get_metric"), r.method("TelemetryEnvironment", "get_enum_metric")}
    for fn in r.p.functions:
        if fn in readers or not any(e.kind == "call" and e.fi in readers for e in g.evs.get(fn, ())):
            continue
        st = St()
        top = fn
        while top.parent is not None:
            top = top.parent
        if top.cls is None:
            r.ob("readers-guarded", fn.qual, None, "a metric is read outside of an environment", fn)
            continue
        st.store[("A", SELF, "metrics")] = NONE
        for p in r.paths(fn, r.walker(opaque={x.qual for x in readers}), st=st):
            calls = [e for e in p.events if e.kind == "call" and e.fi in readers and e.recv == SELF]
            r.ob("readers-guarded", fn.qual, not calls, "a metric is read although metrics may be off", calls[0] if calls else fn)
    r.ob("without-environment", "constructors", n > 0, "no component takes an optional environment", None)
    r.require("off-does-nothing", "off-never-fails", "unknown-does-nothing", "without-environment")
