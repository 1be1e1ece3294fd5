"""W07: length-prefixed streams are cut into exactly the frames sent."""
import ast

from rules._wire import *
from rules._wire import _res

MOVES = ("r", "rb", "a", "reset", "advance", "set_pos")


def _last(p, ops, i):
    """Index of the event of the last operation that changed the buffer before event i."""
    return max([o.i for o in ops if o.k in MOVES and o.i < i] or [-1])


def _known(p, lo, hi, test):
    """Value (True/False/None) the path established for a condition between two events."""
    out = None
    for i, v, pol, _ in assumes(p, hi, lo + 1):
        t = test(v)
        if t is not None:
            out = pol if t else not pol
    return out


def _less(a, b):
    """Recognise `a < b` (True) or its negation spelled the other way round (False)."""
    def f(v):
        if v.k != "cmp":
            return None
        if v.a[0] == "<" and v.a[1:] == (a, b):
            return True
        if v.a[0] == "<=" and v.a[1:] == (b, a):
            return False
        return None
    return f


def _fold(v, store):
    """Truth of a predicate over attributes of self in a given state."""
    if v.k == "cmp" and v.a[0] in ("is", "=="):
        a, b = (_res(x, store) for x in v.a[1:])
        if is_const(a) and is_const(b):
            return cval(a) == cval(b)
        if is_none(b) and a.k == "call":
            return False
        return None
    x = _res(v, store)
    if x.k == "not":
        t = _fold(x.a[0], store)
        return None if t is None else not t
    return bool(cval(x)) if is_const(x) else None


def check(r):
    r.rule("On every path through reassembly: the received bytes are appended once, whole, before anything is read; a length prefix is consumed only when none "
           "is pending and it is complete; a frame is cut with exactly the pending length and only when that many bytes are buffered; each cut frame is returned, in order; "
           "the buffer is discarded only for a pending length known to exceed the MTU; the path ends only when nothing more can be cut, and the stored state says which is pending.")
    W = Wire(r)
    me = V("sym", "self")
    f = r.method("FrameProcessor", "process")
    data, prim, mtu = (V("sym", x) for x in f.params[1:4])
    wm = 3 if r.tier == "quick" else 5
    paths = [(p, [o for o in W.ops(p) if root(o.buf) == me]) for p in r.paths(f, W.walker(while_max=wm))]
    bufs = {o.buf for _, ops in paths for o in ops}
    if len(bufs) != 1:
        raise Anchor("reassembly does not use one buffer")
    buf = bufs.pop()

    # which predicate over the processor's own state says that a length is pending
    votes = {}
    for p, ops in paths:
        core = [o for o in ops if o.k in ("r", "rb")]
        if not core or core[0].k == "r" and p.kind == "exc":
            continue
        for _, v, pol, _ in assumes(p, core[0].i):
            if all(x.k in ("attr", "sym", "cmp", "const", "not", "app") for x in subterms(v)) and mentions(v, me) and not mentions(v, buf) \
                    and not mentions(v, mtu) and not mentions(v, data):
                votes.setdefault(v, set()).add((core[0].k, pol))
    guard, pending_when = None, None
    for v, s in votes.items():
        if s in ({("r", True), ("rb", False)}, {("r", False), ("rb", True)}):
            guard, pending_when = v, ("rb", True) in s
    if guard is None:
        r.ob("pending-tracked", f.qual, False, "whether a length prefix is already consumed is not tracked: it may be consumed twice or not at all", f)
        return
    sizeattr = {o.type for p, ops in paths for o in ops[:2] if o.k == "rb" and o.type is not None and root(o.type) == me}
    if len(sizeattr) != 1:
        r.ob("own-length", f.qual, False, "a frame is not cut with the length which was pending", f)
        return
    held_size = sizeattr.pop()

    two = 0
    for p, ops in paths:
        exc = p.kind == "exc"
        apps = [o for o in ops if o.k == "a"]
        core = [o for o in ops if o.k in ("r", "rb", "reset", "advance", "set_pos")]
        empty = any(v == data and pol is False for _, v, pol, _ in assumes(p))
        if not exc:
            whole = len(apps) == 1 and apps[0].val == data and (apps[0].pos is None or is_none(apps[0].pos) or apps[0].pos == V("app", "len", data))
            r.ob("all-kept", f.qual, whole or empty and not apps, "received bytes are not all kept, once", apps[0].e if apps else f)
            r.ob("kept-first", f.qual, not apps or not core or apps[0].i < core[0].i, "received bytes are appended after buffered ones were looked at", apps[0].e if apps else f)
        g0 = _known(p, -1, None, lambda v: True if v == guard else None)
        pend = "init" if g0 is pending_when else None if g0 is not None else "unknown"
        cut = []
        for o in core:
            lo = _last(p, ops, o.i)
            cur = held_size if pend == "init" else pend
            if o.k == "r":
                chomp = o.e.arg(2, "chomp") if o.prim is not None else o.e.arg(1, "chomp")
                r.ob("prefix-consumed", f.qual, chomp is not None and is_const(chomp, True), "a length prefix stays in the buffer and is read again", o.e)
                can = _known(p, lo, o.i, lambda v: True if any(c.k == "can_read" and c.res == v and c.type == o.type for c in ops) else None)
                r.ob("prefix-complete", f.qual, can is True, "a length prefix is read without being known to be complete", o.e)
                r.ob("prefix-once", f.qual, pend is None, "a length prefix is read while another length is pending", o.e)
                r.ob("prefix-type", f.qual, o.type == V("attr", prim, "type"), "the prefix is not read with the type given for it", o.e)
                pend = o.res
            elif o.k == "rb":
                if pend is None or pend == "unknown":
                    r.ob("own-length", f.qual, False, "a frame is cut although no length is pending", o.e)
                    continue
                r.ob("own-length", f.qual, o.type == cur, "a frame is cut with %r bytes instead of the length announced" % o.type, o.e)
                enough = _known(p, lo, o.i, _less(V("attr", buf, "remaining"), cur))
                r.ob("frame-complete", f.qual, enough is False, "a frame is cut without being known to be complete", o.e)
                chomp = o.e.arg(1, "chomp")
                r.ob("frame-consumed", f.qual, chomp is not None and is_const(chomp, True), "a cut frame stays in the buffer", o.e)
                if pend != "init":
                    big = _known(p, -1, o.i, _less(mtu, cur))
                    r.ob("bounded", f.qual, big is False, "a frame larger than the MTU is waited for", o.e)
                cut.append(o.res)
                pend = None
            elif o.k == "reset":
                big = pend not in (None, "unknown") and _known(p, -1, o.i, _less(mtu, cur))
                r.ob("discard", f.qual, big is True, "buffered bytes are discarded although no pending length exceeds the MTU", o.e)
                pend = None
            else:
                r.ob("discard", f.qual, False, "buffered bytes are skipped", o.e)
        if exc:
            continue
        two += len(cut) > 1
        c = p.st.store.get(("C", p.val)) if p.val is not None else None
        if c is None and p.val is not None and p.val.k in ("list", "tup"):
            c = p.val.a
        r.ob("all-returned", f.qual, None if c is None else len(c) == len(cut) and all(x == y or mentions(x, y) for x, y in zip(c, cut)),
             "%d frames are cut, %s are returned" % (len(cut), "?" if c is None else len(c)), f)
        lo = _last(p, ops, 10 ** 9)
        now = _fold(guard, p.st.store)
        if now is None and guard not in {k for k in [guard] if k.k == "attr" and ("A", me, guard.a[1]) in p.st.store}:
            now = g0 if _res(guard, p.st.store) == guard else None
        if pend is None or pend == "unknown":
            r.ob("state", f.qual, None if now is None else now is not pending_when, "no length is pending but the state says one is", f)
            last = core[-1] if core else None
            done = last is not None and last.k == "reset" or _known(
                p, lo, None, lambda v: True if any(c.k == "can_read" and c.res == v for c in ops) else None) is False
            r.ob("drained", f.qual, done or empty, "a complete length prefix is left in the buffer", f)
        else:
            cur = held_size if pend == "init" else pend
            r.ob("state", f.qual, None if now is None else now is pending_when, "a length is pending but the state says none is: the prefix would be read again", f)
            r.ob("length-held", f.qual, _res(held_size, p.st.store) == cur, "the pending length is not kept", f)
            short = _known(p, lo, None, _less(V("attr", buf, "remaining"), cur))
            r.ob("drained", f.qual, short is True or empty, "a complete frame is left in the buffer", f)
            if pend != "init":
                big = _known(p, -1, None, _less(mtu, cur))
                r.ob("bounded", f.qual, big is False, "a length larger than the MTU is kept", f)
    if not two and not any(o[2] is False for o in r.obs):
        raise Anchor("reassembly never cuts two frames")
    # a new processor has nothing pending
    for st in W.built("FrameProcessor"):
        now = _fold(guard, st.store)
        r.ob("state", "FrameProcessor.__init__", None if now is None else now is not pending_when, "a new processor has a length pending", r.method("FrameProcessor", "__init__"))
    buffer(r, W)
    prefixes(r, W)
    r.require("all-kept", "prefix-complete", "own-length", "frame-complete", "discard", "drained", "state", "chomp", "append", "prefix-agreed")


def buffer(r, W):
    """The buffer operations reassembly relies on."""
    me = V("sym", "self")
    size, pos, dat = (V("attr", me, x) for x in ("size", "pos", "data"))
    zero = const(0)
    f = r.method("ByteBuffer", "read_bytes")
    cnt = V("sym", f.params[1])

    def bounds(v):
        if v.k == "app" and v.a[0] == "slice" or v.k == "slice":
            a = v.a[1:] if v.k == "app" else v.a
            base = a[0]
            while base.k == "bin" and base.a[0] == "+":
                base = base.a[1]  # padding after the end
            return base, (zero if a[1] is None or is_none(a[1]) else a[1]), (None if a[2] is None or is_none(a[2]) else a[2])
        return None
    chomped = 0
    for p in r.paths(f, r.walker()):
        if p.kind == "exc":
            continue
        b = bounds(p.val)
        r.ob("chomp", f.qual, None if b is None else b[0] == dat and lin_eq(b[1], pos) and b[2] is not None and lin_eq(b[2], V("bin", "+", pos, cnt)),
             "the bytes returned are not the next ones of the buffer: %r" % p.val, f)
        nd = p.st.store.get(("A", me, "data"))
        if nd is None or nd == dat:
            np = p.st.store.get(("A", me, "pos"), pos)
            if not any(v == V("sym", f.params[2]) and pol for _, v, pol, _ in assumes(p)):
                r.ob("advance", f.qual, lin_eq(np, V("bin", "+", pos, cnt)), "reading does not move past the bytes returned", f)
            else:
                r.ob("chomp", f.qual, False, "bytes returned for good stay in the buffer", f)
            continue
        if not any(v == V("sym", f.params[2]) and pol for _, v, pol, _ in assumes(p)):
            continue
        chomped += 1
        b = bounds(nd)
        r.ob("chomp", f.qual, None if b is None else b[0] == dat and lin_eq(b[1], V("bin", "+", pos, cnt)) and b[2] is None,
             "after consuming, the buffer does not start right after the bytes returned: %r" % nd, f)
        ns, np = p.st.store.get(("A", me, "size"), size), p.st.store.get(("A", me, "pos"), pos)
        at0 = any(v.k == "cmp" and v.a[0] == "==" and set(v.a[1:]) == {pos, zero} and pol for _, v, pol, _ in assumes(p))
        want = V("bin", "-", V("bin", "-", size, cnt), pos)
        r.ob("chomp", f.qual, lin_eq(ns, want) or at0 and lin_eq(ns, V("bin", "-", size, cnt)), "after consuming, the buffer's size is %r" % ns, f)
        r.ob("chomp", f.qual, is_const(np, 0), "after consuming, the next read does not start at the front", f)
    if not chomped:
        r.ob("chomp", f.qual, False, "nothing is ever consumed from the buffer", f)
    f = r.method("ByteBuffer", "append")
    other = V("sym", f.params[1])
    for p in r.paths(f, r.walker()):
        if p.kind == "exc":
            continue
        dl = V("sym", f.params[2])
        given = not any(v == V("cmp", "is", dl, NONE) and pol for _, v, pol, _ in assumes(p))
        n = dl if given else V("app", "len", other)
        nd = p.st.store.get(("A", me, "data"), dat)
        parts, todo = [], [nd]
        while todo:
            x = todo.pop(0)
            if x.k == "bin" and x.a[0] == "+":
                todo[:0] = [x.a[1], x.a[2]]
            else:
                parts.append(x)
        b0, b1 = (bounds(parts[0]), bounds(parts[1])) if len(parts) > 1 else (None, None)
        ok = None
        if len(parts) > 1 and b0:
            ok = b0[0] == dat and lin_eq(b0[1], zero) and b0[2] is not None and lin_eq(b0[2], size)
            if b1:
                ok = ok and b1[0] == other and lin_eq(b1[1], zero) and (b1[2] is None and not given or b1[2] is not None and lin_eq(b1[2], n))
            else:
                ok = ok and parts[1] == other and not given
        elif len(parts) > 1 and parts[0] == dat:
            ok = False  # whatever lies beyond the used part of the buffer ends up in the middle
        r.ob("append", f.qual, False if len(parts) == 1 else ok, "data is not appended right after what is buffered: %r" % nd, f)
        ns = p.st.store.get(("A", me, "size"), size)
        eq = known_ge(p, V("bin", "-", pos, size)) or any(pol is False and lin_eq(v, V("bin", "-", size, pos)) for _, v, pol, _ in assumes(p))
        nomove = any(v.k == "cmp" and v.a[0] == "<" and pol is False and lin_eq(v.a[1], size) for _, v, pol, _ in assumes(p))
        alts = [V("bin", "+", size, n)] + ([V("bin", "+", pos, n)] if eq else [])
        r.ob("append", f.qual, any(lin_eq(ns, a) for a in alts) or eq and nomove, "the buffer's size becomes %r after appending %r bytes" % (ns, n), f)
    f = r.method("ByteBuffer", "can_read")
    for p in r.paths(f, r.walker()):
        if p.kind == "exc" or p.val is None:
            continue
        need = W.size(V("sym", f.params[1]))
        v = p.val
        ok = None
        if v.k == "not" and v.a[0].k == "cmp" and v.a[0].a[0] == "<":
            ok = lin_eq(v.a[0].a[1], V("bin", "-", size, pos)) and v.a[0].a[2] == need
        elif v.k == "cmp" and v.a[0] == "<=":
            ok = lin_eq(v.a[2], V("bin", "-", size, pos)) and v.a[1] == need
        elif v.k == "cmp":
            ok = False
        elif is_const(v):
            ok = True if any(x.k == "cmp" for _, x, _, _ in assumes(p)) else False
            if ok:
                ok = known_ge(p, V("bin", "-", V("bin", "-", size, pos), need)) is cval(v)
        r.ob("can-read", f.qual, ok, "whether a value can be read is decided by %r" % v, f)


def own_nodes(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def prefixes(r, W):
    """Writers and readers of a stream use the same prefix type."""
    pr = r.method("FrameProcessor", "process")
    sh = r.method("Frame", "with_size_header")
    op = METRICS | {"FrameProcessor.process", "Frame.with_size_header"}
    types = {}

    def ctor(fi, st):
        return fi.cls is not None and fi.cls is W.tp or fi.module is r.cls("TypePrimitive").module
    w = r.walker(opaque=op, while_max=2, loop=(0, 1), inline_pred=ctor)

    def typed(a, p):
        t = p.st.store.get(("A", a, "type"))
        if t is None:
            ev = [x.val for x in p.events if x.kind == "write" and x.recv == a and x.name == "type"]
            t = ev[-1] if ev else None
        return t

    def outer(fi, name):
        """Type of a primitive which an enclosing function assigns to `name`."""
        g = fi.parent
        while g is not None:
            asg = [n.value for n in ast.walk(g.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                   and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
            if len(asg) == 1 and isinstance(asg[0], ast.Call):
                got = set()
                for x, v in w.eval_in(asg[0], g):
                    t = x.store.get(("A", v, "type"))
                    got.add(t)
                return got.pop() if len(got) == 1 else None
            if asg:
                return None
            g = g.parent
        return None
    for fi in r.p.functions:
        if fi.cls is not None and fi.cls.name in ("FrameProcessor", "Frame") or fi.node is None:
            continue
        own = [n for n in own_nodes(fi.node) if isinstance(n, ast.Attribute) and n.attr in ("process", "with_size_header")]
        if not own:
            continue
        for p in r.paths(fi, w):
            for e in p.events:
                if e.kind == "call" and e.fi in (pr, sh):
                    a = e.arg(1, "frame_size") if e.fi is pr else e.arg(0, "frame_size")
                    dfl = a is None or is_none(a)
                    t = None if dfl else typed(a, p)
                    if t is None and not dfl and a.k == "sym":
                        t = outer(fi, a.a[0])
                    types.setdefault((fi.qual, e.fi is pr), set()).add((t, dfl))
                    types[(fi.qual, "at")] = e
    dflt = None
    for p in r.paths(sh, r.walker()):
        for e in p.events:
            if e.kind == "write" and e.name == "type" and any(v == V("cmp", "is", V("sym", "frame_size"), NONE) and pol for _, v, pol, _ in assumes(p)):
                dflt = e.val
    seen = {dflt if d else t for k, s in types.items() if k[1] != "at" for t, d in s}
    known = {t for t in seen if t is not None}
    for k, s in sorted(((k, s) for k, s in types.items() if k[1] != "at"), key=str):
        ts = {dflt if d else t for t, d in s}
        r.ob("prefix-agreed", k[0], None if None in ts else len(known) == 1, "writers and readers of a stream use different length prefixes: %r" % sorted(map(str, known)), types[(k[0], "at")])
