"""Class-level lock model shared by L01-L04: who holds which lock, which locks and which waits a call can reach."""
from vsa.model import CI, FI
from vsa.q import *
from vsa.walk import St

WAIT_EXT = {"time.sleep", "select.select", "asyncio.run", "subprocess.run", "input"}
CONN = {"recv", "recvfrom", "recv_into", "send", "sendall", "sendto", "accept", "connect", "makefile_read", "run_until_complete",
        "serve_forever"}


def ops_of(p, e):
    return p


class Locks:
    def __init__(self, r):
        self.r, self.p, self.g = r, r.p, r.graph()
        self.w = r.walker()
        self.alias = {}          # class -> class whose lock it shares
        self.kind = {}           # class -> external type of its lock
        self._owned, self._rets = {}, {}
        self._made()
        self._trans()

    # -- identity
    def ty(self, v):
        return v.ty or self.w.ty(v, St())

    def owner(self, v):
        """Class owning lock value v (attr 'lock' of an object of known class), or None."""
        if v.k == "attr" and v.a[1].endswith("lock"):
            t = self.ty(v.a[0])
            if t and t[0] == "c":
                return self.alias.get(t[1], t[1])
        return None

    def _made(self):
        for f, evs in self.g.evs.items():
            for e in evs:
                if e.kind == "write" and e.name.endswith("lock") and e.recv.k == "sym" and e.recv.a[0] == "self" and f.name == "__init__":
                    c = f.cls
                    if e.val.k == "sym" and e.val.a[0] in f.params:
                        self._alias(c, f, e.val.a[0])
                    else:
                        t = self.ty(e.val)
                        self.kind[c] = t
        # wrapper classes (OptionalRLock) take the kind of the lock they make by default

    def _alias(self, c, init, param):
        i = init.params.index(param) - 1
        for f, evs in self.g.evs.items():
            for e in evs:
                if e.kind == "new" and e.fn is not None and e.fn.k == "class" and e.fn.a[0] == c:
                    a = e.arg(i, param)
                    if a is not None and a.k == "attr":
                        t = self.ty(a.a[0])
                        if t and t[0] == "c":
                            self.alias[c] = t[1]

    def subs(self, c):
        return [c] + [s for s in self.p.subclasses.get(c, [])]

    # -- transitive summaries: f -> set of (owner, item) with owner "self" or a class
    def site_owner(self, v, f):
        """'self' if the lock is the receiver's own, else its class."""
        if v.k == "attr" and v.a[0].k == "sym" and v.a[0].a[0] == "self" and f.cls is not None or \
                (v.k == "attr" and v.a[0].k == "sym" and v.a[0].a[0] == "self" and f.parent is not None):
            t = self.ty(v.a[0])
            if t and t[0] == "c" and t[1] not in self.alias:
                return "self"
        return self.owner(v)

    def blocking(self, e, f, evs=None):
        """Why event e may wait for another party, or None."""
        if e.kind != "call":
            return None
        if e.fi is not None and not (e.recv is not None and e.recv.k == "super") and not self.queue_cls(e.fi.cls):
            return None
        if e.fi is None and f is not None and self.queue_cls(f.cls):
            return None                      # the body of a queue class: judged where the queue is used
        n = e.name or ""
        if n in WAIT_EXT:
            return n
        if e.fn is not None and e.fn.k == "item" and is_const(e.fn.a[1], "sleep"):
            return "sleep"
        if e.fn is not None and e.fn.k == "attr" and e.fn.a[1] in ("sleep_function",):
            return "sleep"
        rv = e.recv
        if rv is None:
            return None
        t = self.ty(rv)
        tn = t[1] if t and t[0] == "x" else (t[1].name if t and t[0] == "c" else None)
        isq = tn in ("queue.Queue", "Queue", "MeteredQueue", "queue.SimpleQueue") or (t is None and self.queueish(rv))
        nb = lambda i: (e.arg(i, "block") is not None and is_const(e.arg(i, "block"), False))
        if n == "put" and isq and not nb(1):
            return None if self.unbounded(rv, f, evs) else "put on a bounded queue"
        if n == "get" and isq and not nb(0):
            if self.unbounded(rv, f, evs) or self.owned_nonempty(e, f):
                return None
            return "get from a queue"
        if n == "join" and (isq or tn == "threading.Thread" or "thread" in show(rv).lower()):
            return "join"
        if n == "acquire" and not self.w.is_lock(rv, St()):
            if e.arg(0, "blocking") is not None and is_const(e.arg(0, "blocking"), False):
                return None
            return "semaphore wait"
        if n == "shutdown" and "server" in show(rv).lower():
            return "wait for a server to shut down"
        if n == "wait":
            return "wait"
        if n in CONN and not is_const(rv):
            return n + " on a connection"
        if n in ("write", "flush") and rv.k == "item" and "streams" in show(rv.a[0]):
            return n + " on a stream"
        return None

    def queue_cls(self, c):
        return c is not None and any((x if isinstance(x, str) else getattr(x, "name", "")).split(".")[-1] == "Queue" for x in self.p.mro(c))

    def queueish(self, v):
        s = show(v).lower()
        return s.endswith("queue") or s.endswith("queue]") or "queues[" in s or s.endswith(".frames")

    def unbounded(self, v, f, evs=None, d=0):
        """A queue created in this function (or on this path) without a size limit."""
        for e in (evs if evs is not None else self.g.evs.get(f, [])):
            if e.val is not None and e.val == v and e.kind == "call":
                if (e.name or "").endswith("Queue"):
                    a = e.arg(0, "maxsize")
                    return a is None or is_const(a, 0)
                if e.fi is not None and d < 4 and not e.fi.is_generator:
                    if e.fi not in self._rets:
                        self._rets[e.fi] = [x for x in self.r.walker(opaque=(), loop=(0, 1), while_max=1, try_raise=False).entry_any(e.fi)
                                            if x.returned]
                    ps = self._rets[e.fi]
                    return bool(ps) and all(self.unbounded(x.val, e.fi, x.events, d + 1) for x in ps)
        if evs is None and v.k == "sym":
            # a parameter: unbounded if every caller passes an unbounded local queue
            fs = self.g.slot_args(f, v.a[0])
            return bool(fs) and d < 6 and all(self.unbounded(a, c, None, d + 1) for c, a in fs)
        return False

    def owned_nonempty(self, e, f):
        if e.name != "get":
            return False
        k = (f, e.loc)
        if k not in self._owned:
            self._owned[k] = self._owned_nonempty(e, f)
        return self._owned[k]

    def _owned_nonempty(self, e, f):
        """`while not q.empty(): q.get()` under the lock that guards all gets of that queue."""
        gets = [x for h, es in self.g.evs.items() if h.cls is f.cls for x in es
                if x.kind == "call" and x.name == "get" and x.recv == e.recv]
        if not all(any(self.site_owner(v, f) == "self" for v, _ in x.locks) for x in gets):
            return False
        ps = self.r.paths(f, self.r.walker(opaque=(), loop=(0, 1), while_max=1, try_raise=False, keep_cut=True))
        for p in ps:
            for i, x in enumerate(p.events):
                if x.kind == "call" and x.name == "get" and x.recv == e.recv:
                    tests = {y.val: y.name for y in p.events[:i] if y.kind == "call" and y.recv == e.recv and y.name in ("empty", "qsize")}
                    ok = False
                    for y in p.events[:i]:
                        if y.kind == "assume":
                            t = [x for x in subterms(y.val) if x in tests]
                            if t and y.val == t[0]:
                                ok = y.pol is (False if tests[t[0]] == "empty" else True)
                            elif t and tests[t[0]] == "qsize" and y.val.k == "cmp":
                                ok = (y.val == V("cmp", "<", const(0), t[0]) and y.pol is True) or \
                                     (y.val.a[0] == "==" and y.pol is False) or (y.val == V("cmp", "<", t[0], const(1)) and y.pol is False)
                        elif y.kind == "call" and y.recv == e.recv and y.name == "get":
                            ok = False
                    if not ok:
                        return False
        return True

    def _trans(self):
        self.acq = {f: {} for f in self.g.evs}       # FI -> {owner: chain}
        self.blk = {f: {} for f in self.g.evs}       # FI -> {reason: chain}
        for f, evs in self.g.evs.items():
            for e in evs:
                if e.kind == "acquire":
                    o = self.site_owner(e.recv, f)
                    if o is not None:
                        self.acq[f].setdefault(o, (e.where,))
                b = self.blocking(e, f)
                if b:
                    self.blk[f].setdefault((b, e.loc), (e.where,))
        changed = True
        while changed:
            changed = False
            for f in self.g.evs:
                for e, ts in self.g.calls.get(f, []):
                    for t in ts:
                        for o, ch in self.acq.get(t, {}).items():
                            for o2 in self.map_owner(o, e, t, f):
                                if o2 not in self.acq[f] and len(ch) < 14:
                                    self.acq[f][o2] = (e.where,) + ch
                                    changed = True
                        for b, ch in self.blk.get(t, {}).items():
                            if b not in self.blk[f] and len(ch) < 14:
                                self.blk[f][b] = (e.where,) + ch
                                changed = True

    def map_owner(self, o, e, t, f):
        """Owner `o` of a lock in callee t as seen by caller f through call e."""
        if o != "self":
            return [o]
        rv = e.recv
        if e.kind == "new" or (e.fi is not None and e.fi.name == "__init__" and rv is not None and rv.k in ("obj",)):
            return []                        # a new object's own lock is not shared yet
        if rv is None or (e.fi is None and e.kind == "call"):
            # plain or nested function: its `self` is the enclosing method's
            top = t
            while top.parent is not None:
                top = top.parent
            mine = f
            while mine.parent is not None:
                mine = mine.parent
            if top is mine or (top.cls is not None and top.cls is mine.cls):
                return ["self"]
            return [top.cls] if top.cls is not None else []
        if rv.k == "sym" and rv.a[0] == "self" or rv.k == "super":
            return ["self"]
        ty = self.ty(rv)
        if ty and ty[0] == "c":
            c = ty[1]
            if t.cls is not None and t.cls in self.p.subclasses.get(c, []):
                return [t.cls]
            return [self.alias.get(c, c)]
        return [t.cls] if t.cls is not None else []

    def self_classes(self, f):
        top = f
        while top.parent is not None:
            top = top.parent
        return self.subs(top.cls) if top.cls is not None else []

    def conc(self, o, f):
        """Concrete classes an owner stands for in f."""
        if o == "self":
            return {self.alias.get(c, c) for c in self.self_classes(f)}
        return {self.alias.get(c, c) for c in self.subs(o)}

    def held(self, e, f):
        out = []
        for v, i in e.locks:
            o = self.site_owner(v, f)
            if o is not None:
                out.append((o, v))
        return out
