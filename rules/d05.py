"""D05: every kind of daemon stops when told to and never works while paused."""
import ast

from rules._daemon import *

ME = V("sym", "self")
# an unbounded wait in a daemon's thread -> what ends it from outside
ENDS = {"get": {"put", "put_nowait"}, "serve_forever": {"shutdown"}, "run_forever": {"stop"}, "recv": {"shutdown", "close", "sendto"}, "recvfrom": {"shutdown", "close", "sendto"},
        "accept": {"shutdown", "close"}, "handle_request": {"shutdown"}, "acquire": {"release"}, "wait": {"set", "notify_all", "notify"}}
WORK = {"recv", "recvfrom", "read", "accept", "get", "get_nowait", "readline", "handle_request"}


def in_while(e):
    """Is the call repeated by an unbounded loop of the function making it?"""
    node, fn = e.node, e.at
    if node is None or fn is None:
        return False
    best = None
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.While, ast.For, ast.ListComp, ast.GeneratorExp)) and any(x is node for x in ast.walk(n)):
            if best is None or any(x is n for x in ast.walk(best)):
                best = n
    return isinstance(best, ast.While)


def bounded(e):
    if "timeout" in e.kw and not is_none(e.kw["timeout"]):
        return True
    n = e.name
    if n in ("get", "acquire"):
        return len(e.args) > 1 or bool(e.args) and is_const(e.args[0]) and not cval(e.args[0]) or any(is_const(v) and cval(v) is False for k, v in e.kw.items() if k in ("block", "blocking"))
    if n == "wait":
        return bool(e.args)
    return False


def not_in(L, e, member, p, i, j):
    """Does the path establish between events i and j, from a read made there, that the daemon is not in the state `member`?"""
    read = False
    for x in p.events[i:j]:
        if x.kind == "read" and x.name == "state" and x.recv == ME:
            read = True
        if x.kind == "assume" and read:
            v = x.val
            if v.k == "cmp" and v.a[0] in ("==", "is"):
                a, b = v.a[1], v.a[2]
                if b == V("attr", ME, "state"):
                    a, b = b, a
                m = L.member(b)
                if a == V("attr", ME, "state") and m is not None and (m == member) != bool(x.pol):
                    return True
    return False


def check(r):
    r.rule("In the run function of each daemon class, two consecutive rounds of work in an unbounded loop have a fresh test between them that the daemon is not stopping, or wait for "
           "something unbounded which the stop action registered when the daemon is constructed ends on every path; a stop request runs the registered action and then joins the thread; "
           "the queue loop hands each element which is not the marker to its handler once, ends only at the marker and never hands it on; a periodic daemon's task call follows a fresh test that it is not paused.")
    L = Life(r)
    family = [c for c in L.family if (r.p.find_method(c, "run") or L.base) and r.p.find_method(c, "run") is not r.method("DaemonBase", "run")]
    runs = {}
    for c in family:
        runs.setdefault(r.p.find_method(c, "run"), []).append(c)
    opaque = QUIET | {"TelemetryClient.handle_frames", "FrameProcessor.process", "TypePrimitive.__init__", "DaemonBase.set_state"}
    base_init = {f.qual for f in [r.method("DaemonBase", "__init__")]}
    skip_init = {c.name + ".__init__" for c in r.p.classes if not r.p.is_sub(c, L.base)} | base_init
    # the function table's key for the periodic task
    D = r.cls("Daemon")
    task = set()
    w = r.walker(opaque=QUIET | skip_init)
    for p in r.paths(r.method("Daemon", "__init__"), w):
        for e in p.events:
            if e.kind == "store" and e.val == V("sym", "task") and is_const(e.args[0]):
                task.add(V("item", e.recv, e.args[0]))
            elif e.kind == "write" and e.val == V("sym", "task"):
                task.add(V("attr", e.recv, e.name))
    if not task:
        raise Anchor("where Daemon keeps its task")
    waits = {}
    for run, cs in sorted(runs.items(), key=lambda t: t[0].qual):
        w = r.walker(opaque=opaque, while_max=2, loop=(0, 1), track_reads=True, volatile=("state",), max_paths=4000)
        for p in r.paths(run, w):
            seen = {}
            rounds = []
            for i, e in enumerate(p.events):
                if e.kind not in ("call", "yield", "await"):
                    continue
                is_task = e.kind == "call" and e.fi is None and (called(e) in task)
                if is_task:
                    rounds.append(i)
                    prev = max([j for j in rounds[:-1]] or [-1])
                    ok = not_in(L, e, "PAUSED", p, prev + 1, i)
                    r.ob("not-while-paused", run.qual, ok, "the task runs without checking whether the daemon is paused", e)
                blocking = e.kind == "call" and e.fi is None and e.name in ENDS and e.recv is not None and not bounded(e)
                if blocking and (e.name != "get" or e.recv.k == "attr" and e.recv.a[0] == ME or e.recv.k == "sym"):
                    waits.setdefault(run, {}).setdefault((e.name, e.recv), e)
                work = e.kind == "call" and e.fi is None and e.recv is not None and (e.name in WORK or is_task) or is_task or e.kind == "call" and e.name in ("sleep",) and e.fi is None
                if not work or not in_while(e):
                    continue
                k = id(e.node)
                if k in seen:
                    j = seen[k]
                    polled = not_in(L, e, "STOPPING", p, j + 1, i)
                    waited = any(x.kind == "call" and x.fi is None and x.name in ENDS and x.name not in ("recv", "recvfrom") and not bounded(x) and x.recv is not None for x in p.events[j:i])
                    r.ob("stop-noticed", run.qual, polled or waited, "another round of work begins without checking for the stop request", e)
                seen[k] = i
    # stop actions
    for c in family:
        run = r.p.find_method(c, "run")
        need = waits.get(run, {})
        init = r.p.find_method(c, "__init__")
        if not need:
            continue
        own = {b for b in r.p.mro(c) if not isinstance(b, str) and b is not L.base and r.p.is_sub(b, L.base)}
        w = r.walker(opaque=QUIET | skip_init, while_max=1, loop=(0, 1), max_paths=3000,
                     inline_pred=lambda g, st, own=own: g.cls in own and (g.name == "__init__" or r.private(g) or stores_stop(g)))
        acts = 0
        for p in r.call(w, V("bound", init, ME.typed(("c", c))), [V("sym", x) for x in init.params[1:]]):
            if p.kind == "exc":
                continue
            final = None
            for e in p.events:
                if e.kind == "store" and is_const(e.args[0]) and cval(e.args[0]) == "inject_stop":
                    final = e.val
            if final is None:
                r.ob("stop-action", c.name, False, "no stop action ends the wait %s" % ", ".join("%s()" % k[0] for k in need), init)
                acts += 1
                continue
            if final.k not in ("func", "bound", "lambda", "closure"):
                r.ob("stop-action", c.name, None, "the stop action is %s" % show(final), init)
                acts += 1
                continue
            acts += 1
            w2 = r.walker(opaque=QUIET | {"DaemonBase.__init__"}, while_max=2, loop=(0, 1), max_paths=3000)
            for q in r.call(w2, final, [], st=p.st.fork()):
                if q.kind == "exc":
                    continue
                calls = [e for e in q.events if e.kind == "call"]
                for (name, where), at in need.items():
                    here = resolve(q, where)
                    ok = False
                    vague = False
                    for e in calls:
                        nm = e.name
                        if e.fi is None and (nm in ENDS[name] and (e.recv == here or e.recv == where or name in ("recv", "recvfrom")) or
                                             any(a.k == "attr" and a.a[1] in ENDS[name] and a.a[0] in (here, where) or a.k == "app" and False for a in e.args) or
                                             any(a.k in ("func", "bound") and names(a.a[0]) & ENDS[name] for a in e.args)):
                            if nm in ("put", "put_nowait") and not (e.args and is_none(e.args[0])):
                                continue
                            ok = True
                        if e.fi is None and e.recv is None and nm not in ("len", "time"):
                            vague = True
                    r.ob("stop-action", c.name, True if ok else None if vague and name in ("recv", "recvfrom") else False,
                         "the stop action does not end %s of %s on every path" % (name, show(where)), final.a[0] if final.k in ("func", "bound") else init)
        r.ob("stop-registered", c.name, True if acts else None, "not constructed", init)
    # the stop request
    f = r.method("DaemonBase", "begin_stop")
    n = 0
    for p in r.paths(f, r.walker(opaque=QUIET | {"DaemonBase.set_state"})):
        if p.kind == "exc" or p.val is None or is_const(p.val) and not cval(p.val):
            continue
        if any(v == p.val and pol is False for _, v, pol, _e in assumes(p)):
            continue
        n += 1
        st = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "set_state"]
        act = [i for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and key_of(called(e)) == "inject_stop"]
        missing = any(e.kind == "catch" and "KeyError" in str(e.name) for e in p.events) or \
            any(v.k == "cmp" and v.a[0] == "in" and is_const(v.a[1]) and cval(v.a[1]) == "inject_stop" and pol is False for _, v, pol, _e in assumes(p)) or \
            any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and key_of(v.a[1]) == "inject_stop" for _, v, pol, _e in assumes(p))
        r.ob("action-run", f.qual, len(act) == 1 and st and st[0] < act[0] or not act and missing or
             (None if not act and any("inject_stop" in repr(e) for e in p.events) else False), "a stop request is not passed on to the stop action once, after the state says so", f)
    r.ob("stop-requests", f.qual, n > 0, "no stop request is ever accepted", f)
    # queue loop
    f = r.method("QueueDaemon", "run")
    n = 0
    q_ = V("attr", ME, "queue")
    for p in r.paths(f, r.walker(opaque=QUIET, while_max=3)):
        gets = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "get" and e.recv == q_]
        src = V("app", "iter", V("attr", q_, "get"), NONE)
        its = [(i, e) for i, e in enumerate(p.events) if e.kind == "iter" and e.args and e.args[0] == src]
        for k, (i, e) in enumerate(its):
            end = its[k + 1][0] if k + 1 < len(its) else len(p.events)
            hs = [y for y in p.events[i:end] if y.kind == "call" and called(y) == V("attr", ME, "handle")]
            n += 1
            if p.kind != "exc":
                r.ob("handled-once", f.qual, len(hs) == 1 and list(hs[0].args) == [e.val], "an element is handled %d times" % len(hs), e)
                r.ob("marker-not-handled", f.qual, not left_early(p, src) or None, "the loop ends before the marker", e)
        if not gets:
            continue
        for k, (i, e) in enumerate(gets):
            end = gets[k + 1][0] if k + 1 < len(gets) else len(p.events)
            x = e.val
            if x is None or x.k == "exc":
                continue
            hs = [y for y in p.events[i:end] if y.kind == "call" and y.name == "handle" and y.recv == ME or y.kind == "call" and called(y) == V("attr", ME, "handle")]
            marker = [pol for _, v, pol, _e in assumes(p, end, i) if v.k == "cmp" and v.a[0] in ("is", "==") and v.a[1] == x and is_none(v.a[2])]
            n += 1
            if True in marker:
                r.ob("marker-not-handled", f.qual, not hs, "the end-of-stream marker is handed to the handler", e)
                r.ob("marker-ends", f.qual, k + 1 == len(gets), "the loop goes on after the end-of-stream marker", e)
                continue
            if hs and any(x in y.args for y in hs) and False not in marker:
                r.ob("marker-not-handled", f.qual, False, "an element is handled without checking that it is not the marker", e)
            elif p.kind != "exc":
                r.ob("handled-once", f.qual, len(hs) == 1 and list(hs[0].args) == [x], "an element is handled %d times" % len(hs), e)
                r.ob("marker-ends", f.qual, k + 1 < len(gets) and False in marker, "the loop ends before the marker", e)
    r.ob("takes", f.qual, n > 0, "the queue loop takes nothing", f)
    for c in L.family:
        if r.p.is_sub(c, r.cls("QueueDaemon")) and r.p.find_method(c, "run") is not f:
            r.ob("handled-once", c.name, None, "has its own queue loop", r.p.find_method(c, "run"))
    # stopping joins
    f = r.method("DaemonBase", "stop")
    for p in r.paths(f, r.walker(opaque=QUIET | {"DaemonBase.begin_stop"})):
        if p.kind == "exc" or p.val is None or is_const(p.val) and not cval(p.val):
            continue
        b = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "begin_stop"]
        j = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "join"]
        r.ob("joined", f.qual, bool(b and j and b[0] < j[0]), "the stopped thread is not waited for", f)
    r.require("not-while-paused", "stop-noticed", "stop-action", "action-run", "handled-once", "marker-not-handled", "joined")


def called(e):
    """The value called, for a call through an attribute or a table."""
    if isinstance(e.fn, V):
        return e.fn
    return V("attr", e.recv, e.name) if e.recv is not None else None


def key_of(v):
    if v is not None and v.k == "item" and is_const(v.a[1]):
        return cval(v.a[1])
    if v is not None and v.k == "app" and v.a[0] == "get" and len(v.a) > 2 and is_const(v.a[2]):
        return cval(v.a[2])
    return None


def names(g):
    return {g.name} | {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}


def stores_stop(g):
    return any(isinstance(n, ast.Constant) and n.value == "inject_stop" for n in ast.walk(g.node))


def resolve(p, v):
    if v.k == "attr":
        b = resolve(p, v.a[0])
        return p.st.store.get(("A", b, v.a[1]), V("attr", b, v.a[1]))
    return v
