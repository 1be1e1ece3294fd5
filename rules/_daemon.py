"""The life cycle of daemons: state values, functions changing the state, and the thread's entry."""
from vsa.q import *
from vsa.rule import METRICS, Anchor
from vsa.walk import St

QUIET = METRICS | {"TelemetryEnvironment.set_enum_metric", "ChannelEnvironment.set_metric"}


class Life:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.base, self.states = r.cls("DaemonBase"), r.cls("DaemonState")
        self.ops = {n: r.method("DaemonBase", n) for n in ("start", "stop", "pause", "unpause", "begin_stop", "restart", "perform")}
        self.set_state = r.method("DaemonBase", "set_state")
        self.members = [m for m in self.states.assigns if not m.startswith("_")]
        self.me = V("sym", "self")
        self.family = [self.base] + [c for c in r.p.classes if c is not self.base and r.p.is_sub(c, self.base)]
        self._h = None

    def is_daemon(self, v, w, p):
        if v is None:
            return False
        t = v.ty or w.ty(v, p.st)
        return bool(t and t[0] == "c" and self.p.is_sub(t[1], self.base))

    def writes(self, p, w):
        return [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.name == "state" and self.is_daemon(e.recv, w, p)]

    def member(self, v):
        if v is not None and v.k == "enum" and v.a[0] is self.states:
            return v.a[1]
        return None

    def possible(self, p, i, e, anywhere=False):
        """(states the daemon may be in at the write, given tests made in the same critical section; was a test made outside of it?)"""
        cur = V("attr", e.recv, "state")
        pos, neg, outside = None, set(), False
        for j, v, pol, a in assumes(p, i):
            if v.k != "cmp" or v.a[0] not in ("==", "is"):
                continue
            x, y = v.a[1], v.a[2]
            if y == cur:
                x, y = y, x
            m = self.member(y)
            if x != cur or m is None:
                continue
            if not anywhere and not (ids(a) & ids(e)):
                outside = True
                continue
            if pol:
                pos = m
            else:
                neg.add(m)
        got = {pos} if pos else {m for m in self.members if m not in neg}
        return got, outside

    def thread_entries(self):
        """Functions given to threads by the start operation."""
        if self._h is None:
            out = set()
            w = self.r.walker(opaque=QUIET)
            for p in self.r.paths(self.ops["start"], w):
                for e in p.events:
                    if e.kind == "call" and e.fi is None and "Thread" in e.name:
                        t = e.kw.get("target") or (e.args[1] if len(e.args) > 1 else None)
                        if t is not None and t.k == "bound":
                            out.add(t.a[0])
                        elif t is not None and t.k == "attr":
                            f = self.p.find_method(self.base, t.a[1])
                            if f:
                                out.add(f)
                        elif t is not None and t.k == "func":
                            out.add(t.a[0])
            if not out:
                raise Anchor("thread entry of DaemonBase.start")
            self._h = out
        return self._h

    def changers(self):
        """Public functions outside of construction through which the state is changed (set_state itself excluded)."""
        import ast
        todo = set(self.r.named_callers(self.set_state))
        for f in self.p.functions:
            if f is not self.set_state and any(isinstance(n, ast.Attribute) and n.attr == "state" and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                todo.add(f)
        out, seen = set(), set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if self.r.private(f) and self.r.named_callers(f):
                todo |= self.r.named_callers(f)
            else:
                out.add(f)
        return out
