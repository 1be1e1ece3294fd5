"""X05: only a request naming this application's id shuts the server down."""
from rules._daemon import *
from rules.x03 import handlers


def check(r):
    r.rule("Every function registered as an HTTP handler is walked with any request data: shutting the server down (the only call reaching TelemetryServer.stop_all from a handler) happens once, only in the handler of the shutdown "
           "path, and only after establishing that the server's application id equals the id given with the request; a path which does not shut down reports failure. "
           "No function registered as a command reaches the server's shutdown.")
    reg = r.func("vtelem.factories.telemetry_server", "register_http_handlers")
    add = r.method("HttpDaemon", "add_handler")
    stop = r.method("TelemetryServer", "stop_all")
    telem = V("sym", reg.params[1])
    w = r.walker(opaque=QUIET | {"HttpDaemon.add_handler"})
    found = {}
    for p in r.paths(reg, w):
        for e in p.events:
            if e.kind == "call" and e.name == add.name:
                m, pa, h = e.arg(0, "request_type"), e.arg(1, "path"), e.arg(2, "handle")
                if h is not None and h.k in ("func", "bound"):
                    found.setdefault((cval(m) if is_const(m) else show(m), cval(pa) if is_const(pa) else show(pa)), (h, p.st, e))
                else:
                    r.ob("handler", reg.qual, None, "handler %s" % show(h), e)
    if not found:
        raise Anchor("no HTTP handler is registered")
    r.ob("shutdown-path", reg.qual, any(k[1] == "shutdown" for k in found), "there is no shutdown request", reg)
    g = r.graph()
    reach = {}

    def stops(f):
        if f not in reach:
            todo, seen = [f], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(t for _, ts in g.calls.get(x, []) for t in ts)
            reach[f] = stop in seen
        return reach[f]
    OWN = {"vtelem.factories.telemetry_server"}
    done = set()
    for (m, pa), (h, st, at) in sorted(found.items(), key=lambda x: str(x[0])):
        if (h, pa == "shutdown") in done:
            continue
        done.add((h, pa == "shutdown"))
        f = h.a[0]
        ww = r.walker(opaque=QUIET | {"TelemetryServer.stop_all"}, inline_pred=lambda x, s: x.module.name in OWN)
        args = [V("sym", x) for x in f.params[(1 if h.k == "bound" else 0):]]
        data = args[-1]
        some = 0
        for p in r.call(ww, h, args, st=st.fork()):
            acts = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (e.fi is stop or e.name == stop.name or isinstance(e.fi, FI) and stops(e.fi))]
            if pa != "shutdown":
                for i, e in acts:
                    r.ob("others-do-not-stop", f.qual, False, "a request for '%s' shuts the server down" % pa, e)
                r.ob("others-do-not-stop", f.qual, True, "", f)
                continue

            def strip(v):
                while v.k == "app" and v.a[0] in ("int", "str") and len(v.a) == 2:
                    v = v.a[1]
                return v

            def given(v):
                """2: the id given with the request; 1: something computed from it."""
                got = {x.val for x in p.events if x.kind == "call" and x.name in ("get", "pop") and x.recv == data and is_const(x.arg(0, "key"), "app_id")}
                s = strip(v)
                base = s.a[0] if s.k in ("item", "elem") and isinstance(s.a[0], V) and (s.k == "elem" or is_const(s.a[1]) and isinstance(cval(s.a[1]), int)) else s
                if base == V("item", data, const("app_id")) or base in got:
                    return 2
                return int(any(x.k == "item" and is_const(x.a[1], "app_id") and x.a[0] == data or x in got for x in subterms(v)))

            def own(v):
                base = V("attr", telem, "app_id")
                got = {x.val for x in p.events if x.kind == "call" and x.name == "get" and x.recv == base}
                s = strip(v)
                if s in got or s == base or s.k == "attr" and s.a[0] == base and s.a[1] == "data":
                    return 2
                return int(any(x == base or x in got for x in subterms(v)))
            eqs = []
            for i, v, pol, e in assumes(p):
                if v.k == "cmp" and v.a[0] == "==" and (own(v.a[1]) and given(v.a[2]) or own(v.a[2]) and given(v.a[1])):
                    ab = [own(v.a[1]) * given(v.a[2]), own(v.a[2]) * given(v.a[1])]
                    eqs.append((i, pol, max(ab) == 4))
            for i, e in acts:
                some += 1
                r.ob("id-checked", f.qual, True if any(pol and j < i and x for j, pol, x in eqs) else None if any(pol and j < i for j, pol, _ in eqs) else False, "the server is shut down without establishing that the id given is its own", e)
            r.ob("once", f.qual, len(acts) <= 1, "the server is shut down %d times" % len(acts), acts[-1][1] if acts else f)
            if p.kind == "exc":
                continue
            s = tup(p.val, 0)
            if s is None or not is_const(s):
                r.ob("reported", f.qual, None, "result %s" % show(p.val), f)
            elif acts:
                r.ob("reported", f.qual, bool(cval(s)), "a shutdown is reported as failure", f)
            else:
                r.ob("reported", f.qual, not cval(s), "a shutdown request which is refused is reported as success", f)
                r.ob("matching-stops", f.qual, not any(pol and x for _, pol, x in eqs), "a request naming the server's id does not shut it down", f)
        if pa == "shutdown":
            r.ob("stops", f.qual, some > 0, "a shutdown request never shuts the server down", f)
    n = 0
    for h, st, top in handlers(r):
        n += 1
        r.ob("commands-do-not-stop", h.a[0].qual, not stops(h.a[0]), "a command reaches the server's shutdown", h.a[0])
    r.require("id-checked", "reported", "others-do-not-stop", "commands-do-not-stop", "stops")
