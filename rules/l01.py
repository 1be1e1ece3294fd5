"""L01: locks are released on every way out, and re-entrant where re-taken."""
import ast
from rules._locks import Locks
from vsa.model import FI
from vsa.q import *
from vsa.walk import St


def wrapper(r, c):
    """A context manager class around a lock: enter takes it once, exit gives it back once and swallows nothing."""
    for name, kind, other in (("__enter__", "acquire", "release"), ("__exit__", "release", "acquire")):
        fi = r.p.find_method(c, name)
        if not isinstance(fi, FI):
            r.ob("lock-context", c.name, False, "%s has no %s" % (c.name, name), c.methods[list(c.methods)[0]])
            continue
        some = False
        for p in r.paths(fi, r.walker(opaque=(), try_raise=False)):
            if p.raised:
                continue
            n = [e for e in p.events if e.kind == kind]
            m = [e for e in p.events if e.kind == other]
            lk = lambda v: v.k == "attr" and v.a[1].endswith("lock")
            absent = any(v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol and lk(v.a[1]) for _, v, pol, _ in assumes(p)) \
                or any(not pol and lk(v) for _, v, pol, _ in assumes(p))
            some = some or bool(n)
            r.ob("lock-context", "%s.%s" % (c.name, name), len(n) == (0 if absent else 1) and not m,
                 "%s %ss the lock %d times%s" % (name, kind, len(n), " although it has none" if absent else ""), fi)
            if name == "__exit__":
                v = p.val
                ok = True if v in (FALSE, NONE) or is_const(v, 0) else (False if v == TRUE else None)
                r.ob("exit-propagates", c.name, ok, "__exit__ returns %r, which swallows the exception" % v, fi)
        r.ob("lock-context", "%s.%s" % (c.name, name), some, "%s never %ss the lock" % (name, kind), fi)


def check(r):
    r.rule("A `with` releases its lock by construction if the lock's own context manager takes it exactly once and gives it back exactly once "
           "and returns a false value; every other acquisition is followed through every path, each call assumed to be able to raise, until a "
           "matching release in the function or in all its callers; no lock that is not re-entrant is taken while the same object's lock is held.")
    L = Locks(r)
    g = L.g
    wraps = []
    for c in r.p.classes:
        if "__enter__" in c.methods and any(e.kind == "acquire" for m in c.methods.values() for e in g.evs.get(m, [])):
            wraps.append(c)
    for c in L.kind.values():
        if c and c[0] == "c" and c[1] not in wraps:
            wraps.append(c[1])
    for c in wraps:
        wrapper(r, c)
    r.require("lock-context")
    inside = {m for c in wraps for m in c.methods.values()}
    # explicit acquisitions
    expl = {f for f, evs in g.evs.items() if f not in inside and any(e.kind in ("acquire", "release") and e.name == "call" for e in evs)}
    # ... or by calling the methods of a lock's own context manager
    expl |= {f for f, evs in g.evs.items() if f not in inside and any(e.kind == "call" and e.fi in inside and e.name in ("__enter__", "__exit__", "acquire", "release") for e in evs)}
    todo, done = list(expl), set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        w = r.walker(raises=lambda e: ["?"] if e.locks else [], loop=(0, 1), while_max=1, dict_errors=False)
        ps = r.paths(f, w)
        bad = None
        for p in ps:
            n = {}
            for e in p.events:
                if e.kind == "acquire":
                    n[e.recv] = n.get(e.recv, 0) + 1
                elif e.kind == "release":
                    n[e.recv] = n.get(e.recv, 0) - 1
            for v, k in n.items():
                if k:
                    bad = bad or (v, k, p)
        cs = [c for c in g.callers.get(f, ())]
        if bad and cs and r.private(f) and all(not q.raised for q in [bad[2]]):
            todo.extend(cs)
            continue
        r.ob("balanced", f.qual, bad is None, "" if bad is None else "a path %s with the lock %r %s" % (
            "that raises" if bad[2].raised else "returning", bad[0], "still held" if bad[1] > 0 else "released too often"), f)
    # `with` acquisitions: one obligation per site
    for f, evs in g.evs.items():
        for e in evs:
            if e.kind == "acquire" and e.name == "with":
                r.ob("with-balanced", f.qual, True, "", e)
    # what kind of lock the wrapper makes by default
    nonre = {}
    for c, t in L.kind.items():
        if t and t[0] == "x":
            if t[1].endswith("RLock"):
                nonre[c] = False
            elif t[1].endswith("Lock"):
                nonre[c] = True
    for c in wraps:
        init = r.p.find_method(c, "__init__")
        if not isinstance(init, FI):
            continue
        made = None
        for p in r.paths(init, r.walker(opaque=())):
            for e in p.events:
                if e.kind == "write" and e.name.endswith("lock") and not is_none(e.val):
                    made = e.val
                    fn = [x.fn for x in p.events if x.kind in ("call", "new") and x.val == made]
                    src = fn[0] if fn else None
                    d = None
                    if src is not None and src.k == "sym":
                        a = init.node.args
                        pos = a.args[len(a.args) - len(a.defaults):]
                        for q, dv in list(zip(pos, a.defaults)) + [(k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]:
                            if q.arg == src.a[0]:
                                d = ast.unparse(dv)
                                look = r.p.lookup(init.module, d.split(".")[0])
                                if look is not None:
                                    d = str(look[1] if not isinstance(look, str) else look) + " " + d
                    else:
                        d = str(made.a[0]) if made.k == "call" else show(made)
                    if d is None:
                        r.ob("default-kind", c.name, None, "the default lock class of %s is unknown" % c.name, e)
                    else:
                        nonre[c] = "RLock" not in d
                        r.ob("default-kind", c.name, True, "", e)
    for f, evs in g.evs.items():
        for e in evs:
            if e.kind == "new" and e.fn is not None and e.fn.k == "class" and e.fn.a[0] in wraps:
                a = e.arg(2, "lock_cls")
                if a is not None and "RLock" not in show(a):
                    nonre[f.cls] = True
    bad_cls = {c for c, b in nonre.items() if b}
    shared = {c for c, t in L.kind.items() if t and t[0] == "c" and t[1] in bad_cls}

    def nonreentrant(v, f):
        t = L.ty(v.a[0]) if v.k == "attr" else None
        if not t or t[0] != "c":
            return False
        return any(x in bad_cls or x in shared for x in r.p.mro(t[1]))
    for f, evs in g.evs.items():
        if f in inside:
            continue
        mine = [e for e in evs if e.kind == "acquire" and nonreentrant(e.recv, f)]
        if not mine:
            continue
        w = r.walker(opaque=(), loop=(0, 1), while_max=1)
        worst = None
        for p in r.paths(f, w):
            for e in p.events:
                if e.kind == "acquire" and nonreentrant(e.recv, f) and any(v == e.recv for v, _ in e.locks[:-1]):
                    worst = worst or e
        # calls the walk does not follow
        r.ob("reentrant-if-retaken", f.qual, worst is None, "" if worst is None else "takes %r again while holding it, and that lock is not re-entrant" % worst.recv,
             worst or mine[0])
    r.require("reentrant-if-retaken", "with-balanced")
