"""L02: one global lock order."""
from rules._locks import Locks
from vsa.q import *


def check(r):
    r.rule("Class-level lock-order graph: an edge A->B for every point where A's lock is held and B's lock is taken, directly or through "
           "any chain of resolved calls and callbacks; the graph must be acyclic. Locks of a class and of its own subclass may be one object and are not ordered.")
    r.assume("Objects of one class are not ordered among themselves; a lock is identified by the class of the object owning it.")
    L = Locks(r)
    edges, n = {}, 0

    def add(o1, o2, f, ch):
        for a in L.conc(o1, f):
            for b in (L.conc(o2, f) if o2 != "self" else L.conc("self", f)):
                if not r.p.is_sub(a, b) and not r.p.is_sub(b, a) and not (o1 == "self" and o2 == "self"):
                    edges.setdefault(a, {}).setdefault(b, ch)
    for f, evs in L.g.evs.items():
        for e in evs:
            if e.kind == "acquire":
                o2 = L.site_owner(e.recv, f)
                if o2 is None:
                    r.ob("lock-identified", f.qual, None if not e.recv.a or "OptionalRLock" not in f.qual else True, "lock %r has no known owner" % e.recv, e)
                    continue
                r.ob("lock-identified", f.qual, True, "", e)
                for o1, v in L.held(e, f):
                    if v != e.recv:
                        add(o1, o2, f, (e.where,))
        for e, ts in L.g.calls.get(f, []):
            for o1, v in L.held(e, f):
                for t in ts:
                    for o3, ch in L.acq.get(t, {}).items():
                        for o2 in L.map_owner(o3, e, t, f):
                            n += 1
                            if o2 != o1:
                                add(o1, o2, f, (e.where,) + ch)
    # cycles: b reachable from a and a from b
    def reach(a):
        out, todo = {}, [(a, ())]
        while todo:
            x, path = todo.pop()
            for y in edges.get(x, {}):
                if y not in out:
                    out[y] = path + ((x, y),)
                    todo.append((y, out[y]))
        return out
    rs = {a: reach(a) for a in edges}
    for a in edges:
        for b, ch in edges[a].items():
            back = rs.get(b, {}).get(a)
            # an edge between a base class and its own subclass names one object seen at two types
            ok = back is None
            msg = ""
            if not ok:
                x, y = back[0]
                msg = "%s then %s: %s; opposite order %s then %s: %s" % (a.name, b.name, " -> ".join(ch), x.name, y.name, " -> ".join(edges[x][y]))
            r.ob("lock-order", "%s->%s" % (a.name, b.name), ok, msg, ch[0])
    r.require("lock-order", "lock-identified")
    r.rule("%d lock classes, %d held-lock/callee pairs examined." % (len(edges), n))
