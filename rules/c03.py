"""C03: a client decodes everything it receives, starting at a frame boundary."""
import ast

from rules._daemon import *

SELF = V("sym", "self")
OPQ = QUIET | {"FrameProcessor.process", "TelemetryClient.handle_frames", "vtelem.classes.type_primitive:new_default", "vtelem.mtu:create_udp_socket", "vtelem.classes.user_enum:from_enum",
               "DaemonBase.set_state", "DaemonBase.reset_metric", "FileClient.process_raw_frames"}
MAKES = ("create_connection", "create_udp_socket")


def last(name):
    return name.split(".")[-1].split(":")[-1]


def pred_of(r):
    chan = r.cls("ChannelEnvironment")
    apart = [r.cls(x) for x in ("Registry", "UserEnum", "TypePrimitive")]

    def pred(fi, st):
        c = fi.cls
        return fi.qual not in OPQ and (c is None or not (r.p.is_sub(c, chan) or any(r.p.is_sub(c, x) for x in apart)))
    return pred


def impossible(p):
    """A path on which a socket just made is taken to be the earlier one."""
    for _, v, pol, _e in assumes(p):
        if v.k == "cmp" and v.a[0] in ("is", "==") and pol and v.a[1] != v.a[2] and all(x.k in ("call", "obj") or last(show(x)).split("(")[0] in MAKES for x in v.a[1:]) and \
           any(e.kind == "call" and last(e.name) in MAKES and e.val in v.a[1:] for e in p.events):
            return True
    return False


def emptied(evs, proc):
    """Whether the events leave the reassembly state without bytes and with no size read."""
    gone = stale = False
    for e in evs:
        if e.kind == "call" and e.name == "reset" and mentions(e.recv, proc):
            gone = True
        if e.kind == "write" and e.recv == proc and e.name == "buffer":
            gone = True
        if e.kind == "write" and e.recv == proc and e.name == "size_stale" and is_const(e.val) and cval(e.val) is True:
            stale = True
        if e.kind == "call" and e.name == "__init__" and e.recv == proc:
            gone = stale = True
    return gone and stale


def kept(e):
    """Whether the limit given is a local variable set only before the loop the call is in."""
    a = next((k.value for k in e.node.keywords if k.arg == "mtu"), e.node.args[2] if len(e.node.args) > 2 else None)
    body = getattr(e.at, "node", None)
    if not isinstance(a, ast.Name) or body is None:
        return False
    ls = [x for x in ast.walk(body) if isinstance(x, (ast.While, ast.AsyncFor, ast.For)) and any(y is e.node for y in ast.walk(x))]
    sets = [x for x in ast.walk(body) if isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store)]
    inside = [x for x in sets if any(y is x for lp in ls for y in ast.walk(lp))]
    return bool(ls and sets) and not inside


def elements(p, e):
    """The element gone through, and lists holding it."""
    return [e.val] + [k[1] for k, v in p.st.store.items() if k[0] == "C" and isinstance(v, (list, tuple)) and e.val in v]


def loops(paths):
    """The calls cutting frames whose result some path goes through frame by frame."""
    out = set()
    for p in paths:
        cut = {}
        for e in p.events:
            if e.kind == "call" and e.name == "process":
                cut[e.val] = id(e.node)
            elif e.kind == "iter" and e.args and e.args[0] in cut:
                out.add(cut[e.args[0]])
    return out


def flow(r, c, p, evs, reads, where, looped=()):
    """Everything read goes to the decoder, once and in order, and everything it cuts out is handed on."""
    pending, cut, proc, each = [], [], None, []
    for e in evs:
        if e.kind == "call" and last(e.name) in reads and e.fi is None and e.val is not None and e.val.k != "exc":
            if pending:
                r.ob("all-decoded", c, False, "more is read before what was read is decoded", e)
                pending = []
            pending.append(e)
        elif e.kind == "assume" and not e.pol and pending and (e.val == pending[-1].val):
            pending.pop()           # nothing was read
        elif e.kind == "call" and e.val is not None and e.val.k == "exc":
            if e.name == "process" or last(e.name) not in reads:
                pending, cut = [], []           # decoding what was read failed
        elif e.kind == "call" and e.name == "process" and e.fi is not None and e.fi.cls is not None and e.fi.cls.name == "FrameProcessor":
            data = e.arg(0, "data")
            ok = len(pending) == 1 and data == pending[0].val
            r.ob("all-decoded", c, ok, "%s is decoded, not what was just read" % show(data), e)
            r.ob("size-limit", c, e.arg(2, "mtu") in (V("attr", SELF, "mtu"), p.st.store.get(("A", SELF, "mtu"))), "frames are cut by the limit %s, not by the client's own" % show(e.arg(2, "mtu")), e)
            r.ob("size-limit", c, not kept(e), "frames are cut by the limit there was when reading started, whatever it has become", e)
            pending = []
            if proc is not None:
                r.ob("one-decoder", c, e.recv == proc, "the decoder is replaced between reads, losing what it holds of a frame", e)
            proc = e.recv
            cut.append(e)
        elif e.kind == "call" and e.name in ("handle_frames", "extend", "append") and cut:
            if e.args and e.args[0] == cut[-1].val:
                cut.pop()
            each = [x for x in each if not any(mentions(a, x.val) or a in elements(p, x) for a in e.args)]
        elif e.kind == "write" and cut and e.val is not None and mentions(e.val, cut[-1].val) and e.recv == SELF:
            cut.pop()
        elif e.kind == "iter" and e.args and any(x.val == e.args[0] for x in cut):
            each.append(e)
    if p.kind != "exc":
        r.ob("all-decoded", c, not pending, "what was read last is never decoded", pending[0] if pending else where)
        r.ob("all-delivered", c, not each, "a frame cut from the stream is not handed on", each[0] if each else where)
        cut = [x for x in cut if id(x.node) not in looped]
        r.ob("all-delivered", c, not cut, "frames cut from the stream are not handed on", cut[0] if cut else where)


def sockets(r):
    pred = pred_of(r)
    for c in ("TcpClient", "UdpClient"):
        f = r.method(c, "__init__")
        run = r.p.find_method(r.cls(c), "run")
        if run is None:
            r.ob("all-decoded", c, False, "the client does nothing", f)
            continue
        n = 0
        for p in r.paths(f, r.walker(inline_pred=pred, opaque=OPQ, try_raise=False)):
            if p.kind == "exc":
                continue
            old = p.st.store.get(("A", SELF, "processor"))
            sock = p.st.store.get(("A", SELF, "socket"))
            then = p.st.fork()
            then.store.pop(("A", SELF, "state"), None)      # whatever state the daemon is in by then
            ran = list(r.call(r.walker(inline_pred=pred, opaque=OPQ, while_max=2, volatile=("state",)), V("bound", run, V("sym", "self", ty=("c", r.cls(c)))), [V("sym", "started_with")], st=then))
            looped = loops(ran)
            for q in ran:
                if impossible(q):
                    continue
                evs = q.events
                flow(r, c, q, evs, ("recv", "recvfrom", "recv_into", "read"), run, looped)
                new = [i for i, e in enumerate(evs) if e.kind == "call" and last(e.name) in MAKES and e.val is not None and e.val.k != "exc"]
                reads = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "recv"]
                procs = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "process" and e.fi is not None]
                cur = evs[new[-1]].val if new else sock
                for i in reads:
                    r.ob("reads-current", c, evs[i].recv == cur, "the client reads from %s, not from the socket it has" % show(evs[i].recv), evs[i])
                if not procs:
                    continue
                n += 1
                e = evs[procs[0]]
                if new:
                    ok = e.recv != old and any(x.kind == "new" and x.val == e.recv for x in evs[:procs[0]]) or e.recv == old and emptied(evs[:procs[0]], old)
                    r.ob("fresh-on-reconnect", c, ok, "a new connection is decoded as the continuation of the closed one: what was left of a frame is put in front of it", e)
                else:
                    r.ob("kept-otherwise", c, e.recv == old and not emptied(evs[:procs[0]], old), "a connection which goes on is decoded afresh: the part of a frame already read is lost", e)
        r.ob("all-decoded", c, n > 0, "nothing read is decoded", run)


def websocket(r):
    pred = pred_of(r)
    C = r.cls("WebsocketClient")
    f = r.method("WebsocketClient", "__init__")
    n = 0
    for fi in r.p.functions:
        top = fi
        while top.parent is not None:
            top = top.parent
        if top.cls is not C or fi is top or not fi.is_async:
            continue
        ran = list(r.paths(fi, r.walker(inline_pred=pred, opaque=OPQ, while_max=2, volatile=("state",))))
        looped = loops(ran)
        for p in ran:
            evs = p.events
            conn = [i for i, e in enumerate(evs) if e.kind == "call" and e.fi is None and last(e.name) == "connect"]
            if not conn:
                continue
            flow(r, C.name, p, evs, ("recv",), fi, looped)
            procs = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "process" and e.fi is not None]
            if procs:
                n += 1
                e = evs[procs[0]]
                old = V("attr", SELF, "processor")
                ok = any(x.kind == "new" and x.val == e.recv for x in evs[:procs[0]]) or emptied(evs[:procs[0]], e.recv)
                r.ob("fresh-on-reconnect", C.name, ok, "a new connection is decoded as the continuation of the closed one: what was left of a frame is put in front of it", e)
    r.ob("all-decoded", C.name, n > 0 or None, "nothing read is decoded", f)


def files(r):
    pred = pred_of(r)
    c = "FileClient"
    run = r.method(c, "run")
    task = V("attr", SELF, "task")
    n = 0
    ran = list(r.paths(run, r.walker(inline_pred=pred, opaque=OPQ, while_max=2, volatile=("state",))))
    looped = loops(ran)
    for p in ran:
        evs = p.events
        flow(r, c, p, evs, ("read",), run, looped)
        reads = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "read" and e.fi is None]
        tells = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "tell" and e.fi is None]
        seeks = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "seek" and e.fi is None]
        opens = [e for e in evs if e.kind == "call" and last(e.name) == "open"]
        for e in opens:
            r.ob("resumes", c, e.recv == V("attr", task, "path") or bool(e.args) and e.args[0] == V("attr", task, "path"), "%s is opened, not the client's file" % show(e.recv), e)
        if reads:
            s = [i for i in seeks if i < reads[0]]
            good = bool(s) and evs[s[-1]].args and evs[s[-1]].args[0] == V("attr", task, "byte_index") and (len(evs[s[-1]].args) == 1 or is_const(evs[s[-1]].args[1], 0)) and not [i for i in seeks if i > reads[0]]
            r.ob("resumes", c, good, "reading does not start where it was left", evs[reads[0]])
            n += 1
        if p.kind == "exc":
            continue
        got = p.st.store.get(("A", SELF, "task"))
        at = p.st.store.get(("A", got, "byte_index")) if got is not None else None
        if got is not None and at is None and got.k == "obj":
            at = next((e.kw.get("byte_index") for e in evs if e.kind == "new" and e.val == got), None)
        if got is None:
            r.ob("resumes", c, not reads, "where reading was left is not kept: what was read is read again", run)
            continue
        t = [i for i in tells if evs[i].val == at]
        r.ob("resumes", c, (bool(t) and (not reads or t[-1] > reads[-1])) or not reads and at == V("attr", task, "byte_index"), "%s is kept as the place reading was left at" % show(at), run)
        new = [e for e in evs if e.kind == "new" and e.val == got]
        for k in ("path", "max_frames"):
            v = new[0].kw.get(k) if new else p.st.store.get(("A", got, k))
            r.ob("resumes", c, v == V("attr", task, k), "resuming, the %s is %s" % (k, show(v)), new[0] if new else run)
        old = p.st.store.get(("A", SELF, "processor"))
        r.ob("kept-otherwise", c, old is None or old == V("attr", SELF, "processor"), "the part of a frame already read is dropped while the file is resumed after it", run)
        left = p.st.store.get(("A", SELF, "to_process"))
        r.ob("kept-otherwise", c, left is None or mentions(left, V("attr", SELF, "to_process")), "frames read but not yet delivered are dropped", run)
    r.ob("resumes", c, n > 0, "the file is never read", run)


def check(r):
    r.rule("The run of each socket client is walked on from the state each path of its constructor leaves: every non-empty read is handed, before the next read, to the client's decoder, with the client's own size limit, and what that cuts out is handed on; reads come from the socket "
           "the client has then. Where the run made a new socket, the first bytes go to a decoder made (or emptied) in that run; where it did not, to the decoder there was, untouched. A websocket connection gets a decoder of its own before its first bytes. A file is opened and sought "
           "to the place kept before the first read, and every normal end keeps the place after the last read, the same path and limit, the decoder and the frames not yet delivered.")
    r.assume("A socket just made is not the socket there was. A read which raises reads nothing.")
    sockets(r)
    websocket(r)
    files(r)
    r.require("fresh-on-reconnect", "kept-otherwise", "all-decoded", "resumes")
