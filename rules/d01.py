"""D01: daemons move only through legal lifecycle states."""
from rules._daemon import *

LEGAL = {"STARTING": {"IDLE"}, "PAUSED": {"RUNNING"}, "RUNNING": {"PAUSED"}, "STOPPING": {"RUNNING", "PAUSED"}}
TARGET = {"start": "STARTING", "pause": "PAUSED", "unpause": "RUNNING", "begin_stop": "STOPPING", "stop": "STOPPING"}


def check(r):
    r.rule("At every write of a daemon's state the path has established, inside the critical section containing the write, that the state it leaves is a legal "
           "predecessor; the idle state is written only by the constructor and by the function the daemon's thread runs; an operation returns true exactly on "
           "the paths which changed the state, and every operation does so on some path.")
    L = Life(r)
    harness = L.thread_entries()
    for m in LEGAL:
        if m not in L.members or not LEGAL[m] <= set(L.members):
            raise Anchor("DaemonState.%s" % m)
    done = set()
    for f in sorted(L.changers() | set(L.ops[n] for n in TARGET), key=lambda f: f.qual):
        if f is L.set_state or f.name == "__init__" or f.name in ("restart", "perform"):
            continue
        init = False
        q = f.parent
        while q is not None:
            init = init or q.name == "__init__"
            q = q.parent
        w = r.walker(opaque=QUIET, max_paths=8000)
        inh = f in harness or r.helper_of(f, harness)
        for p in r.paths(f, w):
            ws = L.writes(p, w)
            for n, (i, e) in enumerate(ws):
                new = L.member(e.val)
                if new is None:
                    r.ob("legal", f.qual, None, "new state is %s" % show(e.val), e)
                    continue
                if new == "IDLE":
                    r.ob("idle-only-at-end", f.qual, inh, "the state becomes idle while the daemon's thread may be running", e)
                    continue
                if new not in LEGAL:
                    r.ob("legal", f.qual, False, "the state becomes %s" % new, e)
                    continue
                if new == "RUNNING" and inh:
                    r.ob("legal", f.qual, n == 0, "the thread makes the state running twice", e)
                    continue
                got, outside = L.possible(p, i, e)
                ok = got <= LEGAL[new]
                if not ok and outside:
                    got2, _ = L.possible(p, i, e, anywhere=True)
                    r.ob("atomic", f.qual, False, "the state is checked before the critical section in which it becomes %s" % new, e)
                else:
                    r.ob("legal", f.qual, ok, "the state becomes %s from %s" % (new, "/".join(sorted(got))), e)
            if p.kind != "exc" and f.cls is not None and f.name in TARGET and f in L.ops.values() or (p.kind != "exc" and f.name in TARGET and f.cls in L.family):
                v = p.val
                hit = [e for _, e in ws if L.member(e.val) == TARGET[f.name]]
                if v is None or not is_const(v):
                    r.ob("result", f.qual, None, "result is %s" % (show(v) if v is not None else None), f)
                    continue
                if hit:
                    done.add(f.name)
                r.ob("result", f.qual, bool(cval(v)) == bool(ws), "%s %s the state but returns %s" % (f.name, "changed" if ws else "did not change", show(v)), hit[0] if hit else f)
    for n in TARGET:
        r.ob("operates", n, n in done, "%s never changes the state" % n, L.ops[n])
    # the setter stores what it is given
    w = r.walker(opaque=QUIET)
    for p in r.paths(L.set_state, w):
        ws = L.writes(p, w)
        if p.kind == "exc":
            continue
        r.ob("setter", L.set_state.qual, len(ws) == 1 and ws[0][1].val == V("sym", "state") or (not ws and is_const(p.val) and not cval(p.val)), "the state is not stored", L.set_state)
        if ws and p.val is not None:
            i, e = ws[0]
            cur = V("attr", L.me, "state")
            v = p.val
            okr = None
            if v.k == "not":
                inner = v.a[0]
                okr = inner.k == "cmp" and inner.a[0] == "==" and set(inner.a[1:]) == {cur, V("sym", "state")}
            elif is_const(v):
                same = [pol for _, x, pol, _e in assumes(p) if x.k == "cmp" and x.a[0] == "==" and set(x.a[1:]) == {cur, V("sym", "state")}]
                okr = (bool(cval(v)) == (not same[0])) if same else False
            r.ob("setter-result", L.set_state.qual, okr, "set_state returns %s" % show(v), e)
    r.require("legal", "operates", "setter", "result", "idle-only-at-end")
