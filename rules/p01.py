"""P01: a data cache holds what its directory holds and leaves in it what it holds."""
from rules._daemon import *

S = V("sym", "self")
DIR, DATA, LOADED = (V("attr", S, x) for x in ("cache_dir", "data", "loaded"))


def ext(p, *names):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is None and e.name.split(".")[-1] in names]


def done(e):
    return e.val is None or e.val.k != "exc"


def data_writes(p):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "write" and e.recv == S and e.name == "data"]


def marks(p):
    """Changes of the list of loaded directories, as (index, event, 'add'|'empty'|None, value)."""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "write" and e.recv == S and e.name == "loaded":
            c = p.st.store.get(("C", e.val))
            if e.val.k == "obj" and not c:
                out.append((i, e, "empty", None))
            elif e.val.k == "app" and e.val.a[0] == "+" and len(e.val.a) == 3:
                items = p.st.store.get(("C", e.val.a[2])) or (e.val.a[2].a if e.val.a[2].k == "list" else ())
                out.append((i, e, "add" if len(items or ()) == 1 else None, items[0] if items else None))
            else:
                out.append((i, e, None, e.val))
        elif e.kind == "call" and e.fi is None and e.recv == LOADED:
            if e.name == "append":
                out.append((i, e, "add", e.args[0]))
            elif e.name == "extend" and e.args:
                c = p.st.store.get(("C", e.args[0]))
                out.append((i, e, "add" if c and len(c) == 1 else None, c[0] if c else None))
            elif e.name == "clear":
                out.append((i, e, "empty", None))
            elif e.name in ("remove", "pop", "insert"):
                out.append((i, e, None, e.args[0] if e.args else None))
    return out


def check(r):
    r.rule("DataCache.load, write, clean and the constructor are walked: a directory already loaded changes nothing; any other is decoded, whole and recursively, requiring success, after the cache's directory exists; the decoded data is merged into what is held, and only then is "
           "the directory remembered as loaded, so a failure changes neither. write encodes exactly the data held into the cache's directory. clean forgets the data and what was loaded, removes the directory (failing if it cannot) and loads it anew afterwards. The constructor loads the cache's directory.")
    r.assume("datazen's decode_directory, encode_directory and merge do what they document.")
    f = r.method("DataCache", "load")
    d = V("sym", f.params[1])
    n = 0
    for p in r.paths(f, r.walker(inline_pred=lambda g, s: g.cls is f.cls)):
        dec = ext(p, "decode_directory")
        known = next((pol for _, v, pol, _ in assumes(p) if v == V("cmp", "in", d, LOADED)), None)
        ws, ms = data_writes(p), marks(p)
        if known is not False:
            if known is None and p.kind != "exc":
                r.ob("loaded-once", f.qual, not dec and not ws and any(mentions(v, LOADED) for _, v, pol, _ in assumes(p)) and None, "a directory is %s without asking whether it was loaded before" % ("loaded" if dec else "skipped"), f)
            r.ob("loaded-once", f.qual, known is None or not ws and not ms, "a directory which was loaded before is loaded again", f)
            continue
        if p.kind == "exc":
            fail = next((i for i, e in enumerate(p.events) if e.kind == "raise"), len(p.events))
            r.ob("failure-unchanged", f.qual, not ms and not ws, "a directory which could not be loaded is remembered", f)
            continue
        n += 1
        ok = [(i, e) for i, e in dec if done(e)]
        r.ob("loaded", f.qual, len(ok) == 1 and ok[0][1].args[:1] == [d] or None if len(ok) == 1 and not ok[0][1].args else len(ok) == 1 and list(ok[0][1].args[:1]) == [d], "a directory not loaded before is decoded %d times" % len(ok), ok[0][1] if ok else f)
        if len(ok) != 1:
            continue
        i, e = ok[0]
        r.ob("complete", f.qual, is_const(e.kw.get("require_success", FALSE), True) and is_const(e.kw.get("recurse", FALSE), True), "the directory is not decoded completely", e)
        mk = [(j, x) for j, x in ext(p, "makedirs") if done(x) and x.args[:1] and x.args[0] == DIR] + [(j, x) for j, x in ext(p, "mkdir") if done(x) and x.recv is not None and mentions(x.recv, DIR)]
        r.ob("directory-exists", f.qual, any(j < i for j, _ in mk), "the cache's directory may not exist when it is loaded", e)
        for j, x in mk:
            r.ob("directory-exists", f.qual, "exist_ok" in x.kw and is_const(x.kw["exist_ok"], True) or any(v.k == "app" and "exists" in str(v.a[0]) or v.k == "call" and ("exists" in str(v.a[0]) or "isdir" in str(v.a[0])) for _, v, _p, _ in assumes(p, j)), "an existing cache cannot be loaded", x)
        mg = [x for _, x in ext(p, "merge") if done(x)]
        if not mg and any(x.kind == "call" and x.recv == DATA and x.name == "update" for x in p.events):
            r.ob("merged", f.qual, None, "data is updated", f)
        else:
            good = len(ws) == 1 and len(mg) == 1 and (ws[0][1].val == mg[0].val or ws[0][1].val == DATA)
            r.ob("merged", f.qual, good, "the data decoded is not what is held", f)
            if mg:
                a = list(mg[0].args) + list(mg[0].kw.values())
                r.ob("merged", f.qual, DATA in a, "the data held before is dropped", mg[0])
                r.ob("merged", f.qual, any(mentions(x, e.val) for x in a), "the data decoded is not merged", mg[0])
        adds = [m for m in ms if m[2] == "add"]
        r.ob("remembered", f.qual, None if any(m[2] is None for m in ms) else len(ms) == 1 and len(adds) == 1 and adds[0][3] == d, "%s is remembered as loaded" % (show(adds[0][3]) if adds else "nothing"), f)
        for m in adds:
            r.ob("remembered", f.qual, m[0] > i, "the directory is remembered before it was loaded", m[1])
    r.ob("loaded", f.qual, n > 0, "no directory is ever loaded", f)
    # write
    g = r.method("DataCache", "write")
    for p in r.paths(g, r.walker()):
        if p.kind == "exc":
            continue
        enc = [e for _, e in ext(p, "encode_directory")]
        ok = len(enc) == 1
        r.ob("written", g.qual, ok, "the data is written %d times" % len(enc), g)
        if ok:
            a = list(enc[0].args) + list(enc[0].kw.values())
            r.ob("written", g.qual, len(a) > 1 and a[0] == DIR and a[1] == DATA, "%s is written to %s" % (show(a[1] if len(a) > 1 else None), show(a[0] if a else None)), enc[0])
    # clean
    c = r.method("DataCache", "clean")
    for p in r.paths(c, r.walker(opaque=METRICS | {f.qual})):
        if p.kind == "exc":
            continue
        rm = [(i, e) for i, e in ext(p, "rmtree") if e.args and e.args[0] == DIR]
        ld = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.fi is f]
        ws, ms = data_writes(p), marks(p)
        r.ob("cleaned", c.qual, len(rm) == 1 and len(ld) == 1 and ld[0][0] > rm[0][0] and ld[0][1].args[0] == DIR, "the directory is not removed and then loaded anew", c)
        for i, e in rm:
            ig = e.kw.get("ignore_errors", e.args[1] if len(e.args) > 1 else FALSE)
            r.ob("cleaned", c.qual, is_const(ig) and not cval(ig), "a directory which could not be removed is taken as clean", e)
        if not ld:
            continue
        before = [(i, e) for i, e in ws if i < ld[0][0]]
        cl = [i for i, e in enumerate(p.events) if e.kind == "call" and e.recv == DATA and e.name == "clear" and i < ld[0][0]]
        empty = bool(cl) or bool(before) and before[-1][1].val.k == "obj" and not p.st.store.get(("K", before[-1][1].val))
        r.ob("cleaned", c.qual, empty, "data is kept", c)
        r.ob("cleaned", c.qual, any(m[2] == "empty" and m[0] < ld[0][0] for m in ms) or (None if any(m[2] is None for m in ms) else False), "the directories loaded are remembered, so that nothing is loaded anew", c)
    # constructor
    init = r.method("DataCache", "__init__")
    for p in r.paths(init, r.walker(opaque=METRICS | {f.qual})):
        if p.kind == "exc":
            continue
        ld = [e for e in p.events if e.kind == "call" and e.fi is f]
        dirv = p.st.store.get(("A", S, "cache_dir"))
        r.ob("constructed", init.qual, len(ld) == 1 and ld[0].args[0] == dirv and dirv == V("sym", init.params[1]), "a new cache does not load its directory", init)
    r.require("loaded", "written", "cleaned")
