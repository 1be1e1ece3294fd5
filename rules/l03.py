"""L03: nothing waits for another party while a shared lock is held."""
from rules._locks import Locks
from vsa.model import FI
from vsa.q import *

EXEMPT = {"DaemonManager": "serialises operations on daemons, which wait for threads by design; not named in the property",
          "StateMachine": "runs application states under its own lock; not named in the property"}
# QueueClientManager.close_clients unregisters queues under the manager's lock; nothing taking from those queues takes that lock.
SITES = {("QueueClientManager.close_clients", "put on a bounded queue")}


def check(r):
    r.rule("For every program point at which the lock of an environment, daemon, time keeper, registry, writer or client manager is held, no "
           "operation that may wait (put/get on a bounded queue, join, sleep, semaphore or event wait, socket or stream I/O) is executed or "
           "reachable through resolved calls and callbacks.")
    r.assume("DaemonManager and StateMachine locks are outside the property; they serialise whole operations by design.")
    r.assume("close_clients puts end markers under the client manager's lock; the consumers of those queues never take that lock.")
    L = Locks(r)

    def roles(o, f):
        cs = L.conc(o, f)
        return [c for c in cs if not any(getattr(x, "name", x) in EXEMPT for x in r.p.mro(c))]

    cache = {}

    def inlined(f):
        if f not in cache:
            w = r.walker(loop=(0, 1), while_max=1, try_raise=False,
                         inline_pred=lambda fi, st: fi.is_property or fi.is_ctxmgr or bool(L.blk.get(fi))
                         or (not L.g.calls.get(fi) and len(fi.node.body) < 4 if not fi.is_lambda else True))
            ps = w.entry_any(f)
            hits = set()
            for p in ps:
                for e in p.events:
                    if e.locks:
                        b = L.blocking(e, e.at, p.events)
                        if b:
                            for v, _ in e.locks:
                                o = L.site_owner(v, f)
                                if o is not None:
                                    hits.add((b, e.loc))
            cache[f] = None if w.truncated else hits
            r.note_walk(w, ps, f.qual)
        return cache[f]

    def transparent(e, ts, reason):
        """The chain from call e to the wait is made of calls the inlining walk follows."""
        if len(ts) != 1:
            return False
        todo, seen = [next(iter(ts))], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            if t.qual in METRICS or len(seen) > 12:
                return False
            seen.add(t)
            if any((L.blocking(x, t), x.loc) == reason for x in L.g.evs.get(t, [])):
                continue
            nxt = [(x, us) for x, us in L.g.calls.get(t, []) if any(reason in L.blk.get(u, {}) for u in us)]
            if not nxt or any(len(us) != 1 or x.fi is None for x, us in nxt):
                return False
            todo.extend(next(iter(us)) for _, us in nxt)
        return True

    def roots(f):
        """The public functions a private function is called from (None unless every use of it is a plain resolved call)."""
        out, todo, seen = set(), [f], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if not r.private(x) or x.is_lambda:
                out.add(x)
                continue
            cs = r.named_callers(x)
            if not cs or any(not any(ts == {x} or list(ts) == [x] for _, ts in L.g.calls.get(c, [])) for c in cs):
                return None
            todo.extend(cs)
        return out

    def elsewhere(f, reason):
        """True when f is a private helper and the walks of its public callers, which follow it, never get to the wait under a lock."""
        rs = roots(f)
        if not rs or rs == {f}:
            return False
        hs = [inlined(x) for x in rs]
        return all(h is not None and reason not in h for h in hs)
    from vsa.rule import METRICS
    n = 0
    for f, evs in L.g.evs.items():
        for e in evs:
            hs = [(o, v) for o, v in L.held(e, f) if o is not None]
            hs = [(o, v) for o, v in hs if roles(o, f)]
            if not hs or e.kind not in ("call", "new", "enter", "await"):
                continue
            n += 1
            hn = ", ".join(sorted({c.name for o, _ in hs for c in roles(o, f)})[:3])
            b = L.blocking(e, f)
            if b:
                r.ob("no-wait-under-lock", f.qual, False, "%s while the lock of %s is held" % (b, hn), e)
                continue
            if e.kind == "await":
                r.ob("no-wait-under-lock", f.qual, False, "awaits while the lock of %s is held" % hn, e)
                continue
            ts = L.g.targets(e, f)
            bad = None
            for t in ts:
                for reason, ch in L.blk.get(t, {}).items():
                    if (f.qual, reason[0]) in SITES:
                        continue
                    hits = inlined(f)
                    if transparent(e, ts, reason) and (hits is not None and reason not in hits or elsewhere(f, reason)):
                        continue
                    bad = (reason, ch)
            r.ob("no-wait-under-lock", f.qual, bad is None, "" if bad is None else "%s is reached while the lock of %s is held, via %s"
                 % (bad[0][0], hn, " -> ".join((e.where,) + bad[1])), e)
    r.require("no-wait-under-lock")
    r.rule("%d operations under a lock examined." % n)
