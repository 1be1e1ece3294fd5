"""L05: channel groups, dispatch and channel commands are atomic."""
from rules._locks import Locks
from vsa.q import *
from vsa.rule import METRICS, Anchor

ACCESS = {"TypePrimitive.get", "TypePrimitive.set", "TypePrimitive.add", "Channel.emit", "EventQueue.consume"}


def check(r):
    r.rule("On every path of a group read, a group write, a dispatch and a channel command (loops unfolded twice), all accesses to channel values and to "
           "the event queue carry one common acquisition of the environment's lock; every increment of a channel, anywhere, is made under that lock.")
    L = Locks(r)
    env = r.cls("ChannelEnvironment")
    for q in ACCESS:
        r.method(*q.split("."))
    deep = [r.cls("Frame"), r.cls("ByteBuffer")]
    w = r.walker(opaque=METRICS | ACCESS, inline_pred=lambda fi, st: fi.cls is None or not any(r.p.is_sub(fi.cls, d) for d in deep))
    acc = {r.method(*q.split(".")) for q in ACCESS}

    def envlock(e):
        return {i for v, i in e.locks if (L.owner(v) in ([env] + r.p.subclasses.get(env, [])))}

    def atomic(kind, name, ps, fi, least):
        seen = 0
        for p in ps:
            es = [e for e in p.events if e.kind == "call" and e.fi is not None and (e.fi in acc or (e.fi.cls is not None and any(
                e.fi.name == a.name and r.p.is_sub(e.fi.cls, a.cls) for a in acc)))]
            if not es:
                continue
            seen = max(seen, len(es))
            common = envlock(es[0])
            for e in es:
                common = common & envlock(e)
                r.ob(kind, "%s:%s" % (name, e.name), bool(envlock(e)), "%s accesses a channel without the environment locked" % name, e)
            r.ob(kind, name, bool(common), "%s accesses channels in more than one critical section of the environment" % name, es[-1])
        if seen < least:
            r.ob(kind, name, None, "only %d accesses seen on any path" % seen, fi)
        return seen

    # calls a group can make twice in a row
    rd, wr = r.method("ChannelGroup", "read"), r.method("ChannelGroup", "write")
    atomic("group-read", rd.qual, r.paths(rd, w), rd, 2)
    atomic("group-write", wr.qual, r.paths(wr, w), wr, 2)
    d = r.method("ChannelEnvironment", "dispatch")
    n = atomic("dispatch", d.qual, r.paths(d, r.walker(opaque=METRICS | ACCESS, loop=(0, 1), while_max=1, inline_pred=lambda fi, st: fi.cls is None or not any(
        r.p.is_sub(fi.cls, x) for x in deep))), d, 2)
    for nm in ("command_channel_id",):
        f = r.method("ChannelEnvironment", nm)
        atomic("command", f.qual, r.paths(f, w), f, 1)
    # the channel command's consumer: whatever is registered with the command daemon
    mk = r.func("vtelem.factories.telemetry_environment", "create_channel_commander")
    n = 0
    ww = r.walker(opaque=METRICS | ACCESS | {"CommandQueueDaemon.register_consumer"})
    for p in r.paths(mk, ww):
        for e in p.calls():
            if e.name == "register_consumer":
                fn = e.arg(1, "callback") or e.args[1]
                n += 1
                cmd = V("sym", "cmd")
                ps = r.call(ww, fn, [cmd], st=p.st)
                if not atomic("command", mk.name, ps, mk, 1):
                    raise Anchor("no channel access found in the channel command")
    if not n:
        raise Anchor("create_channel_commander registers no consumer")
    # every increment in the repository
    add = r.method("TypePrimitive", "add")
    for f, cs in L.g.calls.items():
        for e, ts in cs:
            if e.kind == "call" and any(t is add or (t.name == "add" and t.cls is not None and r.p.is_sub(t.cls, add.cls)) for t in ts):
                if f.cls is not None and r.p.is_sub(f.cls, add.cls):
                    continue               # the channel's own gate: judged where that is called
                r.ob("increment", f.qual, bool(envlock(e)), "a channel is incremented without the environment locked", e)
    r.require("group-read", "group-write", "dispatch", "command", "increment")
