"""S01: every frame reaches every stream and queue, failing streams excluded."""
from rules._daemon import *
from vsa.walk import St

import os
DEBUG = os.environ.get("VSA_DEBUG")


def handle_of(r):
    """[(the function the writer registers for its input queue, state after construction)], found by value."""
    C = r.cls("StreamWriter")
    init = r.method("StreamWriter", "__init__")
    mro = r.p.mro(C)
    me = V("sym", "self").typed(("c", C))
    w = r.walker(opaque=QUIET, inline_pred=lambda f, s: f.name == "__init__" and f.cls in mro)
    out = {}
    for p in r.call(w, V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        if p.kind == "exc":
            continue
        h = p.st.store.get(("A", me, "handle"))
        if h is None or h.k not in ("func", "bound"):
            raise Anchor("the writer's element handler is %s" % show(h))
        st = p.st.fork()
        for k in [k for k in st.store if k[0] == "A" and k[1] == me]:
            del st.store[k]
        out.setdefault(h, (me, h, st))
    if not out:
        raise Anchor("StreamWriter cannot be constructed")
    return list(out.values())


def over(v, base):
    return any(x == base for x in subterms(v))


def elem_id(v, base):
    """Which element of the table `base` (or of a copy of it) the value is or belongs to: the pass's ordinal."""
    for x in subterms(v):
        if x.k in ("key", "elem") and over(x.a[0], base):
            return V("nth", *[y for y in x.a[1:]])
    for x in subterms(v):
        if x.k == "item" and over(x.a[0], base):
            return x.a[1]
    return None


def empty(p, base):
    """True: the path knows the table to be empty; None: it knows something else about it; False: it knows nothing."""
    got = False
    for v, pol in list(p.facts.items()):
        if v.k == "obj" and pol is False and any(over(x, base) for x in p.st.store.get(("COMP", v)) or ()):
            return True
        if over(v, base):
            if pol is False and (v == base or v.k == "app" and v.a[0] != "more" or v.k == "len"):
                return True
            got = None
    return got


def over_comp(p, v, base):
    return v.k == "obj" and any(over(x, base) for x in p.st.store.get(("COMP", v)) or ())


STAR = V("nth", "*")


def check(r):
    r.rule("QueueDaemon.run hands each element it takes to its handler exactly once, in order, and ends only at the end marker. The handler StreamWriter registers is walked with up to two streams and two queues, any "
           "write or flush raising and any write being short: every stream iterated is written once, with the frame's length-prefixed bytes; the number of bytes written is compared with the prefixed size; nothing raised by a stream leaves the handler "
           "or skips another stream or a queue, nor does an OSError raised in closing a client leave the error handler the library registers; exactly the streams whose write failed or was short are removed (closer called) and reported once; every queue gets the frame once, blocking.")
    r.assume("A failing stream raises OSError or ValueError (closed file), as io streams do. The error handler itself does not raise.")
    # the daemon's loop
    run = r.method("QueueDaemon", "run")
    S = V("sym", "self")
    q = V("attr", S, "queue")
    for p in r.paths(run, r.walker()):
        if p.kind == "exc":
            continue
        cur, done = None, True
        sentinel = False
        for e in p.events:
            if e.kind == "call" and e.recv == q and e.name in ("get", "get_nowait"):
                r.ob("element-handled", run.qual, done, "an element is taken while the last was not handled", e)
                cur, done = e.val, False
            elif e.kind == "iter" and e.args and e.args[0].k == "app" and e.args[0].a[0] == "iter" and len(e.args[0].a) == 3 and mentions(e.args[0].a[1], q) and is_none(e.args[0].a[2]):
                r.ob("element-handled", run.qual, done, "an element is taken while the last was not handled", e)
                cur, done, sentinel = e.val, False, True
            elif e.kind == "call" and e.name == "handle" and e.recv == S:
                r.ob("element-handled", run.qual, len(e.args) == 1 and e.args[0] == cur and not done, "the handler is called with %s" % ",".join(show(a) for a in e.args), e)
                done = True
            elif e.kind == "assume" and e.val.k == "cmp" and e.val.a[0] == "is" and e.val.a[1] == cur and is_none(e.val.a[2]) and e.pol:
                done = True
        if cur is not None and not sentinel:
            end = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == cur and is_none(v.a[2]) and pol for _, v, pol, _e in assumes(p))
            r.ob("ends-at-marker", run.qual, end, "the daemon ends without having taken the end marker", run)
    # the handler
    rem = r.method("StreamWriter", "remove_stream")
    raises = lambda e: ["OSError", "ValueError"] if e.fi is None and e.name in ("write", "flush", "writelines") and e.recv is not None else ()
    for me, h, st in handle_of(r):
        f = h.a[0]
        streams, queues, onerr = V("attr", me, "streams"), V("attr", me, "queues"), V("attr", me, "error_handle")
        frame = V("sym", f.params[-1])
        w = r.walker(opaque=QUIET | {"StreamWriter.remove_stream", "Frame.with_size_header"}, raises=raises, try_raise=False)
        for p in r.call(w, h, [frame], st=st.fork()):
            none = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and v.a[1] == frame and is_none(v.a[2])]
            if True in none or any(e.kind == "call" and e.fi is not None and e.val is not None and e.val.k == "exc" and e.name not in ("write", "flush", "handle") for e in p.events):
                continue
            its = [(i, e) for i, e in enumerate(p.events) if e.kind in ("iter", "compiter") and e.args and over(e.args[0], streams)]
            wr = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.name == "write" and e.recv is not None and elem_id(e.recv, streams) is not None]
            odd = [e for e in p.events if e.kind == "call" and e.fi is None and e.name == "writelines" and elem_id(e.recv, streams) is not None]
            for e in odd:
                r.ob("written-once", f.qual, None, "written by lines", e)
            hdr = [e for e in p.events if e.kind == "call" and e.name == "with_size_header" and e.recv == frame]
            if p.kind == "exc":
                src = [e for e in p.events if e.kind == "raise"]
                if p.exc_name in ("OSError", "ValueError", "AssertionError") and wr:
                    r.ob("failure-contained", f.qual, False, "a failing stream (%s) stops the writer" % p.exc_name, src[-1] if src else f)
                elif p.exc_name in ("UnboundLocalError", "KeyError", "RuntimeError", "TypeError", "AttributeError"):
                    r.ob("failure-contained", f.qual, False, "handling a frame raises %s" % p.exc_name, src[-1] if src else f)
                continue
            r.ob("failure-contained", f.qual, True, "", f)
            # the elements of the first pass over the streams
            keys = []
            for _, e in its:
                k = elem_id(e.val, streams) if e.val is not None else None
                if k is None and e.val is not None:
                    k = e.val
                if k is not None and k not in keys:
                    keys.append(k)
            r.ob("all-streams", f.qual, not its or not left_early(p, its[0][1].args[0]), "the pass over the streams ends early", its[-1][1] if its else f)
            if not its:
                r.ob("all-streams", f.qual, empty(p, streams), "the streams are not written although there may be some%s" % (" (%s)" % "; ".join(show(v) for v in p.facts) if DEBUG else ""), f)
            failed, unknown = set(), set()
            if any(pol and v.k == "cmp" and v.a[0] == "==" and any(is_const(x) and isinstance(cval(x), int) and cval(x) < 0 for x in v.a[1:]) and any(y in (V("item", x.val, const(1)),) for x in hdr for y in v.a[1:]) for _, v, pol, _e in assumes(p)):
                continue  # a negative size
            for k in keys:
                mine = [(i, e) for i, e in wr if elem_id(e.recv, streams) == k]
                r.ob("written-once", f.qual, len(mine) == 1, "a stream is written %d times for one frame" % len(mine), mine[-1][1] if mine else its[0][1])
                for i, e in mine:
                    a = e.arg(0)
                    ok = a is not None and any(a == V("item", x.val, const(0)) or a == tup(x.val, 0) for x in hdr)
                    if not ok and a is not None and a.k == "app" and a.a[0] in ("bytes", "bytearray") and len(a.a) == 2:
                        ok = any(a.a[1] == V("item", x.val, const(0)) for x in hdr)
                    r.ob("prefixed", f.qual, ok or (None if a is not None and not over(a, V("call", "raw")) and any(mentions(a, x.val) for x in hdr) else False), "what is written is %s" % show(a), e)
                    if e.val.k == "exc":
                        failed.add(k)
                        continue
                    got = False
                    for j, v, pol, _e in assumes(p):
                        if j > i and mentions(v, e.val):
                            got = True
                            if v.k == "cmp" and v.a[0] in ("==", "<"):
                                o = v.a[2] if v.a[1] == e.val else v.a[1]
                                size = any(o == V("item", x.val, const(1)) or o.k == "app" and o.a[0] == "len" and o.a[1] == a for x in hdr)
                                if not size:
                                    r.ob("short-noticed", f.qual, False if is_const(o) else None, "the bytes written are compared with %s" % show(o), _e)
                                    unknown.add(k)
                                elif v.a[0] == "==" and not pol or v.a[0] == "<" and pol and v.a[1] == e.val:
                                    failed.add(k)
                            else:
                                unknown.add(k)
                    late = [x for x in p.events if x.kind == "call" and x.fi is None and x.name == "flush" and elem_id(x.recv, streams) == k and x.val.k == "exc"]
                    if late:
                        unknown.add(k)
                    else:
                        r.ob("short-noticed", f.qual, got, "a short write is not noticed", e)
            gone = [e for e in p.events if e.kind == "call" and (e.fi is rem or e.name == rem.name) and e.recv == me]
            rep = [e for e in p.events if e.kind == "call" and e.fi is None and (e.name == onerr.a[1] and e.recv == me or e.fn == onerr)]
            quiet = any(v.k == "cmp" and v.a[0] == "is" and v.a[1] == onerr and is_none(v.a[2]) and pol or v == onerr and not pol for _, v, pol, _e in assumes(p))
            made = {e.args[0] for e in p.events if e.kind == "iter" and e.args and e.args[0].k == "obj" and p.st.store.get(("COMP", e.args[0])) == ()}
            gone = [e for e in gone if root(e.arg(0, rem.params[1])) not in made]  # of an element the comprehension left out
            rep = [e for e in rep if not e.args or root(e.args[0]) not in made]
            if STAR in keys:
                # the pass is a comprehension: one element stands for all
                gid = [elem_id(e.arg(0, rem.params[1]), streams) for e in gone]
                rid = [elem_id(e.args[0], streams) for e in rep if e.args]
                lists = [v for v, pol in p.facts.items() if v.k == "obj" and pol is False and p.st.store.get(("COMP", v))]
                if STAR in failed:
                    if gid or not lists:
                        r.ob("failing-removed", f.qual, bool(gid) and None not in gid and len(set(gid)) == len(gid), "failing streams are removed as %s" % ", ".join(map(show, gid)), f)
                        r.ob("failing-reported", f.qual, quiet and not rid or set(rid) == set(gid) and len(rid) == len(gid), "failing streams are not reported as they are removed", f)
                elif STAR not in unknown:
                    r.ob("others-stay", f.qual, not gid and not rid, "a stream which took the whole frame is removed or reported", f)
                keys = []
                gone = []
            for k in keys:
                g = [e for e in gone if elem_id(e.arg(0, rem.params[1]), streams) == k]
                t = [e for e in rep if e.args and elem_id(e.args[0], streams) == k]
                if k in failed:
                    r.ob("failing-removed", f.qual, len(g) == 1 and not (g[0].arg(1, "call_closer") is not None and g[0].arg(1, "call_closer") != TRUE), "a failing stream is removed %d times%s" % (len(g), ", keeping its closer" if g else ""), g[-1] if g else f)
                    r.ob("failing-reported", f.qual, quiet and not t or len(t) == 1 and not quiet, "a failing stream is reported %d times" % len(t), t[-1] if t else f)
                elif k not in unknown:
                    r.ob("others-stay", f.qual, not g and not t, "a stream which took the whole frame is removed or reported", (g + t)[0] if g or t else f)
            odd = [e for e in gone if elem_id(e.arg(0, rem.params[1]), streams) not in keys]
            r.ob("others-stay", f.qual, not odd, "another stream is removed", odd[0] if odd else f)
            direct = [e for _, e in mutations(p) if e.recv is not None and over(e.recv, streams) and e.recv in (streams,)]
            r.ob("others-stay", f.qual, not direct or None, "streams are changed directly", direct[0] if direct else f)
            # queues
            qi = [e for e in p.events if e.kind == "iter" and e.args and (over(e.args[0], queues) or over_comp(p, e.args[0], queues))]
            puts = [e for e in p.events if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv is not None and elem_id(e.recv, queues) is not None]
            qk = []
            for e in qi:
                k = elem_id(e.val, queues) if e.val is not None else None
                k = e.val if k is None else k
                if k not in qk:
                    qk.append(k)
            for k in qk:
                mine = [e for e in puts if elem_id(e.recv, queues) == k]
                r.ob("queued-once", f.qual, len(mine) == 1 and mine[0].name == "put" and mine[0].args[:1] == (frame,) and len(mine[0].args) == 1 and not mine[0].kw,
                     "a queue is given the frame %d times%s" % (len(mine), "" if len(mine) != 1 else " as %s(%s)" % (mine[0].name, ", ".join(show(a) for a in mine[0].args))), mine[-1] if mine else qi[0])
            r.ob("all-queues", f.qual, not qi or not left_early(p, qi[0].args[0]), "the pass over the queues ends early", qi[-1] if qi else f)
            if not qi:
                r.ob("all-queues", f.qual, empty(p, queues), "the frame is not queued although there may be queues%s" % (" (%s)" % "; ".join(show(v) for v in p.facts) if DEBUG else ", once a stream failed" if failed else ""), f)
    # the handler the library itself gives the writer
    init = r.method("UdpClientManager", "__init__")
    me = S.typed(("c", r.cls("UdpClientManager")))
    seen = set()
    for p in r.call(r.walker(opaque=QUIET), V("bound", init, me), [V("sym", x) for x in init.params[1:]]):
        for e in p.events if p.kind != "exc" else ():
            if e.kind != "write" or e.name != "error_handle" or e.val in seen:
                continue
            seen.add(e.val)
            h = e.val
            if h.k not in ("func", "bound"):
                r.ob("handler-contains", init.qual, None, "error handler %s" % show(h), e)
                continue
            f, st = h.a[0], p.st.fork()
            for k in [k for k in st.store if k[0] == "A" and k[1] == me]:
                del st.store[k]
            boom = lambda x: ["ConnectionRefusedError", "OSError"] if x.fi is None and x.name in ("close", "flush") and x.recv is not None and over(x.recv, V("attr", me, "clients")) and \
                not (x.recv.k in ("item", "elem") and is_const(x.recv.a[1], 0)) else ()
            for q in r.call(r.walker(opaque=QUIET, raises=boom, try_raise=False), h, [V("sym", x) for x in f.params[-1:]], st=st):
                bad = q.kind == "exc" and any(x.kind == "call" and x.val is not None and x.val.k == "exc" and x.name in ("close", "flush") for x in q.events)
                src = [x for x in q.events if x.kind == "call" and x.val is not None and x.val.k == "exc"]
                r.ob("handler-contains", f.qual, not bad, "a client which cannot be flushed when it is closed (%s) stops the writer" % q.exc_name if bad else "", src[-1] if bad else f)
    r.require("handler-contains", "written-once", "prefixed", "short-noticed", "failing-removed", "failing-reported", "queued-once", "all-streams", "all-queues", "element-handled")
