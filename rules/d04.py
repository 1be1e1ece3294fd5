"""D04: a group operation reaches dependencies first and each daemon once."""
from rules._daemon import *

ADD = {"append", "add", "insert", "appendleft"}


def parts(p, v, depth=0):
    """A list value as the values it is known to contain: ([elements], [sequences spliced in]); None when not understood."""
    if depth > 8:
        return None
    c = p.st.store.get(("C", v))
    if v.k == "tup" or isinstance(c, tuple) and all(isinstance(x, V) for x in c) or isinstance(c, V) and c.k == "tup":
        items = v.a if v.k == "tup" else c.a if isinstance(c, V) else c
        els, seqs = [], [v]
        for x in items:
            if x.k == "app" and x.a[0] == "star":
                got = parts(p, x.a[1], depth + 1)
                if got is None:
                    return None
                els += got[0]
                seqs += got[1]
            else:
                els.append(x)
        return els, seqs
    if v.k == "obj" and c is None:
        comp = p.st.store.get(("COMP", v))  # a comprehension over something unknown: what it holds for one element of it
        return (list(comp), [v]) if comp is not None else ([], [v, V("app", "unfollowed", v)])
    if isinstance(c, tuple) and c and all(isinstance(x, V) for x in c) or c == ():
        return list(c), [v]
    if isinstance(c, V) and c.k == "tup":
        return list(c.a), [v]
    if v.k == "tup":
        return list(v.a), [v]
    if v.k == "bin" and v.a[0] == "+":
        a, b = parts(p, v.a[1], depth + 1), parts(p, v.a[2], depth + 1)
        return None if a is None or b is None else (a[0] + b[0], a[1] + b[1])
    if v.k == "app" and v.a[0] in ("list", "sorted", "reversed", "tuple") and len(v.a) > 1:
        return parts(p, v.a[1], depth + 1)
    return [], [v]


def check(r):
    r.rule("Wherever the manager operates on a daemon in a group operation, the path has established that the daemon is not in the collection of daemons "
           "already operated on and that every dependency recorded for it is; the daemon joins that collection before any further one is looked at; and the "
           "work list handed on still holds the rest of the work, the daemon itself when it had to wait, and the dependencies it waits for.")
    cls = r.cls("DaemonManager")
    me = V("sym", "self")
    top = r.method("DaemonManager", "perform_all")
    r.method("DaemonManager", "perform")
    # functions of the class reachable from the group operation by name
    reach, todo = set(), [top]
    while todo:
        f = todo.pop()
        if f in reach:
            continue
        reach.add(f)
        for g in cls.methods.values():
            if g.name != "perform" and g not in reach and f in r.named_callers(g):
                todo.append(g)
            if g is f and g.name != "perform" and False:
                todo.append(g)
    entries = {f for f in reach if f is top or not r.private(f)}
    rec = {f.qual for f in reach if f is not top}
    ops = 0
    for f in sorted(reach, key=lambda f: f.qual):
        w = r.walker(opaque=METRICS | {"DaemonManager.perform"} | {q for q in rec}, loop=(0, 1, 2), while_max=3, max_paths=6000)
        for p in r.paths(f, w):
            for i, e in enumerate(p.events):
                if e.kind != "call" or e.name != "perform" or e.fi is None or e.recv != me:
                    continue
                ops += 1
                x = e.arg(0, "name")
                done = [(j, v.a[2]) for j, v, pol, _ in assumes(p, i) if v.k == "cmp" and v.a[0] == "in" and v.a[1] == x and pol is False]
                # containers which x joins after being operated on
                joins = [(j, a.recv) for j, a in enumerate(p.events) if j > i and (a.kind == "call" and a.name in ADD and x in a.args or a.kind == "store" and a.args[0] == x)]
                conts = [c for _, c in done if any(c == b for _, b in joins)]
                none_yet = [c for _, b in joins for c in [b] if b.k == "obj" and not done and not any(y.kind == "call" and y.name == "perform" for y in p.events[:i])]
                if not done and not none_yet:
                    r.ob("not-again", f.qual, False, "a daemon is operated on without checking that it was not already", e)
                    continue
                if not conts and not none_yet:
                    r.ob("remembered", f.qual, False, "a daemon that was operated on is not remembered", e)
                    continue
                C = (conts or none_yet)[0]
                r.ob("not-again", f.qual, True, "", e)
                nxt = [j for j, y in enumerate(p.events) if j > i and y.kind == "call" and (y.name == "perform" or y.fi is not None and y.fi.qual in rec)]
                j0 = min(j for j, b in joins if b == C)
                r.ob("remembered", f.qual, not nxt or j0 < nxt[0], "the next daemon is looked at before this one is remembered", e)
                # dependencies
                dep = [V("item", V("attr", me, "depends_on"), x)]
                dep += [y.val for y in p.events[:i] if y.kind == "call" and y.val is not None and y.name == "get" and y.recv == V("attr", me, "depends_on") and y.args and y.args[0] == x]
                looked = any(mentions(v, d) for d in dep for _, v, _p, _e in assumes(p, i)) or any(y.kind == "iter" and any(mentions(y.args[0], d) for d in dep) for y in p.events[:i] if y.args) \
                    or any(mentions(fk, d) for d in dep for fk in p.facts)
                if not looked:
                    r.ob("dependencies-first", f.qual, False, "a daemon is operated on whatever its dependencies", e)
                    continue
                bad = None
                for y in p.events[:i]:
                    if y.kind != "iter" or not y.args:
                        continue
                    src = y.args[0]
                    if any(src == d for d in dep):
                        ok = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == y.val and v.a[2] == C and pol for _, v, pol, _ in assumes(p, i))
                        bad = bad or (None if ok else "dependency %s may not have been operated on" % show(y.val))
                    elif any(mentions(src, d) for d in dep) and not (src.k == "app" and src.a[0] in ("or", "list", "tuple", "sorted", "set", "ifexp", "phi")):
                        bad = bad or ("only %s of the dependencies are looked at" % show(src) if src.k == "app" and src.a[0] == "slice" else None)
                if left_early(p, None) and any(y.kind == "iter" and y.args and any(mentions(y.args[0], d) for d in dep) for y in p.events[:i]) and not bad:
                    its = [y for y in p.events[:i] if y.kind == "iter" and y.args and any(mentions(y.args[0], d) for d in dep)]
                    if len(its) == 1 and left_early(p, its[0].args[0]):
                        bad = "only the first dependency is looked at"
                r.ob("dependencies-first", f.qual, not bad, bad or "", e)
            # handing on
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.fi is not None and e.fi.qual in rec and f is not top and f.params[1:] and e.fi is f:
                    stack = V("sym", f.params[1])
                    arg = e.args[0] if e.args else None
                    if arg is None:
                        continue
                    got = parts(p, arg)
                    if got is None:
                        continue
                    els, seqs = got
                    popped = [y.val for y in p.events[:i] if y.kind == "call" and y.name == "pop" and y.recv == stack]
                    popped += [V("item", stack, const(-1)), V("item", stack, const(0))] if not popped else []
                    rest = any(mentions(s, stack) for s in seqs)
                    r.ob("rest-kept", f.qual, True if rest else False if all(s.k in ("obj", "tup") for s in seqs) else None, "the rest of the work is dropped", e)
                    cur = [x for x in popped if any(mentions(v, x) for _, v, _p, _e in assumes(p, i)) or any(y.kind == "call" and x in y.args for y in p.events[:i])]
                    for x in cur:
                        did = any(y.kind == "call" and y.name == "perform" and x in y.args for y in p.events[:i])
                        was = any(v.k == "cmp" and v.a[0] == "in" and v.a[1] == x and pol for _, v, pol, _ in assumes(p, i))
                        if did or was:
                            continue
                        r.ob("waits", f.qual, True if x in els else False if not any(s.k not in ("obj", "tup", "sym") for s in seqs) else None, "a daemon waiting for its dependencies is forgotten", e)
                        miss = [v.a[1] for _, v, pol, _ in assumes(p, i) if v.k == "cmp" and v.a[0] == "in" and pol is False and v.a[1] != x and v.a[1].k in ("elem", "item") and mentions(v.a[1], V("attr", me, "depends_on"))]
                        lost = [m for m in miss if m not in els]
                        r.ob("dependencies-queued", f.qual, True if not lost else None if any(s.k not in ("obj", "tup", "sym") for s in seqs) else False, "a missing dependency is not operated on", e)
                    for k, n in enumerate(f.params[2:], 1):
                        if k < len(e.args) and e.args[k].k == "sym":
                            r.ob("handed-on", f.qual, e.args[k] == V("sym", n), "%s is handed on as %s" % (n, show(e.args[k])), e)
            if f is top:
                for e in p.events:
                    if e.kind == "call" and e.fi is not None and e.fi.qual in rec and e.fi.params[1:]:
                        a = e.args[0] if e.args else None
                        tbl = V("attr", me, "daemons")
                        if a is None:
                            continue
                        ok = mentions(a, tbl) and a.k in ("app", "attr") and all(x.k != "app" or x.a[0] in ("list", "keys", "sorted", "reversed", "tuple") for x in subterms(a))
                        c = p.st.store.get(("C", a))
                        part = c is not None and (a.k == "obj")
                        filt = a.k == "obj" and any(x.kind == "iter" and x.args and mentions(x.args[0], tbl) for x in p.events)
                        els = parts(p, a)
                        dropped = filt and els is not None and any(x.kind == "iter" and x.args and mentions(x.args[0], tbl) and x.val not in els[0] for x in p.events)
                        comp = p.st.store.get(("COMP", a))
                        if comp is not None:
                            ok = bool(comp) and mentions(comp[0], tbl)
                            dropped = not comp and any(mentions(v, tbl) for _, v, _p, _e in assumes(p, len(p.events)))
                        r.ob("all-daemons", f.qual, True if ok else False if dropped else None, "not every registered daemon is operated on", e)
    r.ob("operates", "DaemonManager", ops > 0, "the group operation operates on no daemon", top)
    r.require("operates")
