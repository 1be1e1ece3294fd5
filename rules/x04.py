"""X04: every HTTP request gets exactly one well-formed response."""
from rules._daemon import *
from rules.x01 import no_insert

GOOD = {"http.HTTPStatus.OK", "http.HTTPStatus.CREATED", "http.HTTPStatus.ACCEPTED", "http.HTTPStatus.NO_CONTENT"}


def status(v):
    """The numeric code a status value stands for, when known."""
    import http
    if v is None:
        return None
    if v.k == "attr" and v.a[1] == "value":
        v = v.a[0]
    if is_const(v) and isinstance(cval(v), int):
        return cval(v)
    s = show(v)
    if "HTTPStatus." in s:
        return int(getattr(http.HTTPStatus, s.rsplit(".", 1)[1], 0)) or None
    return None


def check(r):
    r.rule("For every request method, with any handler result and with the handler, the parsing of the URI and of the posted data raising: each path sends exactly one response. No handler: one 404 and no handler call. "
           "Handler raised or reported failure: one error response (status of at least 400). Handler reported success: one success status, one content length which is the length of the bytes written, after the "
           "status and before the end of headers, and the body written once after it, unless the method is HEAD. Handlers are looked up without adding entries, HEAD as GET.")
    r.assume("The base class's send_error, send_response, send_header and end_headers do what the standard library documents.")
    H = r.cls("MapperAwareRequestHandler")
    gh = r.method("HttpRequestMapper", "get_handle")
    r.func("vtelem.classes.http_request_mapper", "get_post_request_data")

    def raising(e):
        if e.kind != "call":
            return []
        if e.fi is None and e.fn is not None and "get_handle" in show(e.fn) and not e.name.startswith("get_handle"):
            return ["Exception"]
        if e.name in ("get_post_request_data", "urlparse", "urlsplit", "parse_qs"):
            return ["ValueError"] if e.name != "parse_qs" else []
        return []
    n = {"ok": 0, "bad": 0, "none": 0, "raised": 0}
    for nm in ("do_HEAD", "do_GET", "do_POST"):
        f = r.method("MapperAwareRequestHandler", nm)
        me = V("sym", "self", ty=("c", H))
        w = r.walker(opaque=QUIET | {"HttpRequestMapper.get_handle", "get_post_request_data", "vtelem.classes.http_request_mapper:get_post_request_data"}, raises=raising, loop=(0, 1))
        for p in r.paths(f, w):
            ev = list(enumerate(p.events))
            errs = [(i, e) for i, e in ev if e.kind == "call" and e.name == "send_error"]
            resp = [(i, e) for i, e in ev if e.kind == "call" and e.name in ("send_response", "send_response_only")]
            if p.kind == "exc":
                src = [e for _, e in ev if e.kind == "call" and e.val is not None and e.val.k == "exc"]
                r.ob("no-escape", f.qual, False if src else None, "a request is left without a response when %s raises" % (src[-1].name if src and src[-1].name != "<item>" else "its handler"), src[-1] if src else f)
                continue
            r.ob("no-escape", f.qual, True, "", f)
            at = (errs + resp)[-1][1] if errs or resp else f
            r.ob("one-response", f.qual, len(errs) + len(resp) == 1, "a request gets %d responses" % (len(errs) + len(resp)), at)
            if len(errs) + len(resp) != 1:
                continue
            look = [(i, e) for i, e in ev if e.kind == "call" and e.name == gh.name and e.val.k != "exc"]
            calls = [(i, e) for i, e in ev if e.kind == "call" and e.fi is None and e.fn is not None and any(e.fn == V("item", x.val, const(0)) for _, x in look)]
            if errs:
                c = status(errs[0][1].arg(0, "code"))
                r.ob("error-status", f.qual, None if c is None else c >= 400, "an error is reported with status %s" % c, errs[0][1])
            if not look:
                r.ob("looked-up", f.qual, bool(errs), "a success is reported without a handler", at)
                continue
            for _, e in look:
                m, pa = e.arg(0, "request_type"), e.arg(1, "path")
                parsed = [x.val for _, x in ev if x.kind == "call" and x.name in ("urlparse", "urlsplit")]
                head = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "==" and any(is_const(x, "HEAD") for x in v.a[1:])]
                r.ob("path", f.qual, True if pa is not None and pa.k == "attr" and pa.a[1] == "path" else None, "the handler of %s is looked up" % show(pa), e)
                if head and head[-1]:
                    r.ob("head-is-get", f.qual, is_const(m, "GET"), "HEAD is looked up as %s" % show(m), e)
            r.ob("one-handler", f.qual, len(look) == 1 and len(calls) <= 1, "a request is handled %d times" % len(calls), at)
            known = [pol for _, v, pol, _e in assumes(p) if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and v.a[1] == V("item", look[-1][1].val, const(0))] + \
                    [not pol for _, v, pol, _e in assumes(p) if v == V("item", look[-1][1].val, const(0))]
            if known and known[-1]:
                n["none"] += 1
                r.ob("unknown-path", f.qual, bool(errs) and not calls and status(errs[0][1].arg(0, "code")) == 404, "a path without a handler is not answered with a not-found error", at)
                continue
            if not calls:
                r.ob("handled", f.qual, False, "a request whose path has a handler is answered without running it", at)
                continue
            h = calls[0][1]
            r.ob("handler-arguments", f.qual, len(h.args) == 2 and h.args[0] == V("sym", "self"), "a handler is called with %s" % show(h.args), h)
            if h.val.k == "exc":
                n["raised"] += 1
                r.ob("raised-is-error", f.qual, bool(errs), "a request whose handler raised is answered with success", at)
                continue
            ok = [pol for _, v, pol, _e in assumes(p) if v == V("item", h.val, const(0))]
            if not ok:
                r.ob("result-used", f.qual, False, "the response does not depend on the handler's result", at)
                continue
            if not ok[-1]:
                n["bad"] += 1
                r.ob("failure-is-error", f.qual, bool(errs), "a failure is answered with success", at)
                continue
            n["ok"] += 1
            r.ob("success-is-success", f.qual, bool(resp), "a success is answered with an error", at)
            if not resp:
                continue
            c = status(resp[0][1].arg(0, "code"))
            r.ob("success-status", f.qual, None if c is None else 200 <= c < 300, "a success is answered with status %s" % c, resp[0][1])
            enc = {x.val: x for _, x in ev if x.kind == "call" and x.name == "encode" and x.fi is None}

            def same(v):
                """Two encodings of the same text are the same bytes."""
                x = enc.get(v)
                return ("encode", x.recv, tuple(x.args), tuple(sorted(x.kw.items(), key=str))) if x is not None else \
                    ("encode", v.a[1], (), ()) if v.k == "app" and v.a[0] in ("encode", ".encode") and len(v.a) == 2 else v
            hs = [(i, e) for i, e in ev if e.kind == "call" and e.name == "send_header"]
            ends = [(i, e) for i, e in ev if e.kind == "call" and e.name == "end_headers"]
            wr = [(i, e) for i, e in ev if e.kind == "call" and e.name == "write" and e.recv is not None and "wfile" in show(e.recv)]
            cl = [(i, e) for i, e in hs if is_const(e.arg(0, "keyword")) and str(cval(e.arg(0, "keyword"))).lower() == "content-length"]
            tabled = any(e.kind == "store" and e.args and is_const(e.args[0]) and str(cval(e.args[0])).lower() == "content-length" for _, e in ev)
            r.ob("content-length", f.qual, len(cl) == 1 or (None if tabled else False), "%d content lengths are sent" % len(cl), at)
            r.ob("ends-headers", f.qual, len(ends) == 1, "the headers are ended %d times" % len(ends), at)
            head = [pol for _, a, pol, _e in assumes(p) if a.k == "cmp" and a.a[0] == "==" and any(is_const(x, "HEAD") for x in a.a[1:])]
            if head and head[-1]:
                r.ob("no-body-for-head", f.qual, not wr, "a body is sent in response to HEAD", wr[0][1] if wr else at)
            elif head:
                r.ob("body", f.qual, len(wr) == 1, "the body is written %d times" % len(wr), wr[0][1] if wr else at)
            else:
                r.ob("no-body-for-head", f.qual, not wr or None, "a body is sent whatever the method is", wr[0][1] if wr else at)
            if len(cl) != 1 or len(ends) != 1:
                continue
            r.ob("order", f.qual, resp[0][0] < min(i for i, _ in hs) and max(i for i, _ in hs) < ends[0][0] and all(ends[0][0] < i for i, _ in wr), "status, headers and body are out of order", cl[0][1])
            v = cl[0][1].arg(1, "value")
            if v.k == "app" and v.a[0] in ("str", "fstr", "format") and len(v.a) == 2 and isinstance(v.a[1], V):
                v = v.a[1]
            X = v.a[1] if v.k == "app" and v.a[0] == "len" else None
            text = V("item", h.val, const(1))
            if X is None:
                r.ob("length-of-body", f.qual, None, "content length %s" % show(v), cl[0][1])
                continue
            r.ob("length-of-body", f.qual, X != text and all(same(X) == same(e.args[0]) for _, e in wr),
                 "the content length is the length of %s, not of the bytes sent" % show(X), cl[0][1])
            for _, e in wr:
                b = same(e.args[0])
                r.ob("body-is-content", f.qual, b[1] == text if isinstance(b, tuple) else (True if mentions(b, text) and b != text else None if b != text else False), "the body written is %s" % show(e.args[0]), e)
    # lookup
    me = V("sym", "self")
    req = V("attr", me, "requests")
    a, b = (V("sym", x) for x in gh.params[1:3])
    for p in r.paths(gh, r.walker(track_reads=True, dict_errors=True)):
        if p.kind == "exc":
            r.ob("lookup", gh.qual, False, "looking up a path raises", gh)
            continue
        for t in (req, V("item", req, a), V("attr", me, "handle_data"), V("item", V("attr", me, "handle_data"), a)):
            no_insert(r, "lookup-registers-nothing", p, t, gh.qual)
        for i, e in mutations(p):
            r.ob("lookup-registers-nothing", gh.qual, False, "looking up a path changes %s" % show(e.recv), e)
        v = tup(p.val, 0)
        absent = any(x.k == "cmp" and x.a[0] == "in" and not pol and mentions(x.a[2], req) for _, x, pol, _e in assumes(p)) or \
            any(x.k == "cmp" and x.a[0] == "is" and is_none(x.a[2]) and pol and mentions(x.a[1], req) or mentions(x, req) and x.k == "item" and not pol for _, x, pol, _e in assumes(p))
        ok = v == V("item", V("item", req, a), b) if v is not None and not is_none(v) else absent
        r.ob("lookup", gh.qual, ok if p.val.k == "tup" else None, "the handler of another path is found, or none although there is one: %s" % show(p.val), gh)
    for k, x in n.items():
        r.ob("reaches", "responses", x > 0 or None, "no path on which the handler outcome is '%s'" % k, gh)
    r.require("one-response", "content-length", "length-of-body", "body", "no-body-for-head", "unknown-path", "failure-is-error", "lookup")
