"""X09: a request's handler gets what the request sent, whole, and nothing else."""
from rules._daemon import *

MOD = "vtelem.classes.http_request_mapper"
PARSE = {MOD + ":" + x for x in ("parse_content_type", "get_multipart_boundary", "parse_multipart_data")}


def handler_calls(p):
    look = [e.val for e in p.events if e.kind == "call" and e.name == "get_handle" and e.val.k != "exc"]
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.fn is not None and any(e.fn == V("item", x, const(0)) for x in look)]


def into(p, i, d):
    """What is put into the table d before event i: [value]."""
    out = []
    for e in p.events[:i]:
        if e.recv == d and e.kind == "call" and e.name in ("update", "setdefault", "__ior__"):
            out += list(e.args) + list((e.kw or {}).values())
        if e.recv == d and e.kind == "store":
            out += list(e.args) + [e.val]
    return out


def missing_is_none(p, r, d):
    """Does the table answer None for what is not in it?"""
    df = p.st.store.get(("DF", d))
    if df is None:
        return False
    if df.k in ("func", "bound"):
        try:
            return all(q.kind != "exc" and is_none(q.val) for q in r.call(r.walker(), df, [], st=p.st))
        except Exception:
            return None
    return False if df.k in ("ext", "class") or is_none(df) else None


def handling(r):
    H = r.cls("MapperAwareRequestHandler")
    me = V("sym", "self", ty=("c", H))
    posted = {MOD + ":get_post_request_data", "get_post_request_data"}
    seen = 0
    kinds = set()
    for nm in ("do_HEAD", "do_GET", "do_POST"):
        f = r.method("MapperAwareRequestHandler", nm)
        w = r.walker(opaque=QUIET | posted | {"HttpRequestMapper.get_handle"}, loop=(0, 1))
        for p in r.call(w, V("bound", f, me), [], st=St()):
            hs = handler_calls(p)
            posts = [e for e in p.events if e.kind == "call" and e.name == "get_post_request_data"]
            if nm == "do_POST" and hs:
                r.ob("posted-given", f.qual, len(posts) == 1 and posts[0].args == (me,), "what was posted is read %d times" % len(posts), f)
            if nm != "do_POST":
                r.ob("posted-given", f.qual, not posts, "a %s request is read as if it was posted" % nm[3:], posts[0] if posts else f)
            for i, e in hs:
                seen += 1
                r.ob("own-request", f.qual, len(e.args) == 2 and e.args[0] == me, "a handler is given %s as its request" % (show(e.args[0]) if e.args else "nothing"), e)
                if len(e.args) != 2:
                    continue
                d = e.args[1]
                r.ob("own-table", f.qual, None if d.k in ("app", "call") else fresh(d), "the data of a request is kept in %s, which other requests use too" % show(d), e)
                m = missing_is_none(p, r, d) if d.k == "obj" else None
                r.ob("missing-is-none", f.qual, m, "a handler asking for an argument which was not sent gets no answer", e)
                src = into(p, i, d)
                have = V("tup", *[x for x in src if isinstance(x, V)])
                uri = [x for x in subterms(V("tup", *[y for _, y, _p, _e in assumes(p, i)] + list(have.a))) if x.k == "attr" and x.a[1] == "query"]
                no_query = any(not pol and v.k == "attr" and v.a[1] == "query" for _, v, pol, _ in assumes(p, i))
                qd = any(x.k == "attr" and x.a[1] == "query" for x in subterms(have))
                if not no_query:
                    kinds.add("query")
                    r.ob("query-given", f.qual, qd, "the arguments of a request's query do not reach its handler", e)
                if posts:
                    v = posts[0].val
                    none = any(pol and x.k == "cmp" and x.a[0] == "is" and x.a[1] == v and is_none(x.a[2]) or not pol and x == v for _, x, pol, _ in assumes(p, i))
                    if not none:
                        kinds.add("posted")
                        # or entry by entry, of which there may be none
                        each = [x for x in p.events[:i] if x.kind == "iter" and x.args and mentions(x.args[0], v)]
                        empty = any(val is False and (k == v or k == V("app", "items", v)) for k, val in p.facts.items())
                        r.ob("posted-given", f.qual, mentions(have, v) or empty or any(mentions(have, y) for x in each for y in (x.val.a if x.val.k == "tup" else [x.val]) if isinstance(y, V)), "what was posted does not reach the handler", e)
                for x in src:
                    if isinstance(x, V) and x.k in ("attr", "sym", "item") and root(x) == me and not any(y.k == "attr" and y.a[1] in ("path", "query") for y in subterms(x)):
                        r.ob("own-table", f.qual, False, "the data of a request has %s of other requests in it" % show(x), e)
    r.ob("own-request", "do_GET", seen > 0, "no handler is ever called", H)
    r.ob("query-given", "do_GET", "query" in kinds, "arguments of a query are never given to a handler", H)
    r.ob("posted-given", "do_POST", "posted" in kinds, "posted data is never given to a handler", H)


def reading(r):
    f = r.func(MOD, "get_post_request_data")
    req = V("sym", "request")
    length = V("item", V("attr", req, "headers"), const("Content-Length"))
    kinds = set()
    w = r.walker(opaque=QUIET | PARSE, loop=(0, 1, 2), max_paths=4000)
    for p in r.call(w, V("func", f, 0), [req], st=St()):
        rd = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.recv is not None and e.recv == V("attr", req, "rfile")]
        r.ob("read-once", f.qual, len(rd) <= 1, "the body of a request is read %d times" % len(rd), rd[-1][1] if rd else f)
        for i, e in rd:
            a = e.args[0] if e.args else None
            whole = a is not None and (a == V("call", "int", length) or show(a) == "int(%s)" % show(length))
            r.ob("whole-body", f.qual, e.name == "read" and (True if whole else None if a is not None and mentions(a, length) and not any(x.k == "bin" or x.k == "app" for x in subterms(a)) else False),
                 "a body is read by %s(%s), not in its whole length" % (e.name, show(a) if a is not None else ""), e)
            bounded = any(v.k == "cmp" and v.a[0] == "<" and v.a[1] == a and is_const(v.a[2]) and cval(v.a[2]) in (0, 1) and not pol or v.k == "cmp" and v.a[0] == "<" and is_const(v.a[1]) and cval(v.a[1]) in (-1, 0) and v.a[2] == a and pol for _, v, pol, _ in assumes(p, i))
            r.ob("never-waits-for-more", f.qual, bounded, "a negative content length makes the server read until the client goes away", e)
        if p.kind == "exc":
            continue
        body = [x for _, e in rd for x in [e.val]]
        known = {cval(x) for _, v, pol, _ in assumes(p) if pol and v.k == "cmp" and v.a[0] == "==" for x in v.a[1:] if is_const(x)}
        bs = [e.val for e in p.events if e.kind == "call" and e.name == "get_multipart_boundary"]
        no_b = any(pol and v.k == "cmp" and v.a[0] == "is" and v.a[1] in bs and is_none(v.a[2]) or not pol and v in bs for _, v, pol, _ in assumes(p))
        if {"application", "x-www-form-urlencoded"} <= known:
            kinds.add("urlencoded")
            r.ob("body-parsed", f.qual, bool(body) and mentions(p.val, body[0]) or (None if body and p.val.k == "obj" and not (p.st.store.get(("KC", p.val)) and not p.st.store.get(("K", p.val))) else False), "url-encoded arguments do not reach the handler", f)
        elif {"multipart", "form-data"} <= known and not no_b:
            kinds.add("form")
            ps = [e for e in p.events if e.kind == "call" and e.name == "parse_multipart_data"]
            r.ob("body-parsed", f.qual, len(ps) == 1 and bool(body) and ps[0].args[0] in bs and mentions(ps[0].args[1], body[0]), "a form's data is not parsed", ps[0] if ps else f)
            if len(ps) != 1:
                continue
            its = [e for e in p.events if e.kind == "iter" and e.args and mentions(e.args[0], ps[0].val)]
            has = {}
            for _, v, pol, _ in assumes(p):
                if v.k == "cmp" and v.a[0] == "in" and is_const(v.a[1], "content-disposition"):
                    for e in its:
                        if mentions(v.a[2], e.val):
                            has[e.val] = pol
            want = tuple(e.val for e in its if has.get(e.val))
            lst = p.st.store.get(("I", p.val, const("parts")), p.st.store.get(("I", p.val, "parts")))
            got = p.st.store.get(("C", lst)) if lst is not None else None
            got = tuple(got) if isinstance(got, (tuple, list)) else tuple(got.a) if isinstance(got, V) and got.k == "tup" else None
            keys = p.st.store.get(("K", p.val)) if p.st.store.get(("KC", p.val)) else None
            if keys is not None:
                r.ob("parts-in-order", f.qual, lst is not None, "the parts of a form are not handed on as such", f)
            for e in its:
                if any(x.k == "app" and x.a and x.a[0] == "slice" for x in subterms(e.args[0])):
                    r.ob("parts-in-order", f.qual, False, "only some parts of a form are looked at", e)
            if p.facts.get(ps[0].val) is False and got is None:
                continue
            r.ob("parts-in-order", f.qual, None if got is None else got == want and not left_early(p, ps[0].val), "of %d parts with a content disposition %d are handed on" % (len(want), len(got or ())), f)
    r.ob("body-parsed", f.qual, kinds == {"urlencoded", "form"} or None, "posted data is not understood", f)


def check(r):
    r.rule("Every request method is walked to the call of the handler found: it gets the request itself and a table made on that path, answering None for what is missing, into which the posted data (read once, for POST only) and the arguments of the query were put. "
           "Reading posted data reads the body at most once, exactly the bytes its Content-Length says, never a negative number; url-encoded data is returned parsed, and of a form every part having a content disposition is handed on, in order.")
    handling(r)
    reading(r)
    r.require("own-request", "read-once", "body-parsed")
