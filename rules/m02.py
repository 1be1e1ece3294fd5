"""M02: stored message fragments are found again after a restart."""
from vsa.q import *
from vsa.rule import METRICS, Anchor


def comps(v, p=None):
    """Path value as ((component, suffix), ...), or None."""
    if v.k == "call" and isinstance(v.a[0], str) and v.a[0].endswith("join"):
        return None
    if v.k == "app" and isinstance(v.a[0], str) and v.a[0].split(".")[-1] == "join" and v.a[0].startswith("os"):
        out = []
        for x in v.a[1:]:
            c = comps(x)
            if c is None:
                return None
            out += c
        return out
    if v.k == "app" and v.a[0] in ("pathlib.Path", "Path", "str", "fspath", "os.fspath") and len(v.a) > 1 and not (v.a[0] == "str" and v.a[1].k != "bin" and comps_leaf(v.a[1])):
        out = []
        for x in v.a[1:]:
            c = comps(x)
            if c is None:
                return None
            out += c
        return out
    if v.k == "bin" and v.a[0] == "/":
        a, b = comps(v.a[1]), comps(v.a[2])
        return None if a is None or b is None else a + b
    if v.k == "bin" and v.a[0] == "+":
        a = comps(v.a[1])
        if a is None or not (is_const(v.a[2]) and isinstance(cval(v.a[2]), str)):
            return None
        return a[:-1] + [(a[-1][0], a[-1][1] + cval(v.a[2]))]
    return [(v, "")]


def comps_leaf(v):
    return not (v.k == "app" and str(v.a[0]).split(".")[-1] in ("join", "Path"))


def bare(c):
    """Component without its conversion to text."""
    v = c[0]
    while v.k == "app" and v.a[0] in ("str", "int", "fstr", "format") and len(v.a) == 2:
        v = v.a[1]
    return v


def slot(p, recv, key, upto):
    """(type, crc, index) keys of a store into the fragment table, or None."""
    keys = [key]
    for _ in range(4):
        if recv.k == "obj":
            src = [e for e in p.events[:upto] if e.kind == "store" and e.val == recv]
            if not src:
                return None
            keys.append(src[-1].args[0])
            recv = src[-1].recv
        elif recv.k == "item":
            keys.append(recv.a[1])
            recv = recv.a[0]
        elif recv.k == "attr" and recv.a[1] == "fragment_data":
            return keys[::-1]
        elif recv.k in ("call", "app"):
            src = [e for e in p.events[:upto] if e.kind == "call" and e.val == recv and e.name in ("setdefault", "get") and e.args]
            if not src:
                return None
            keys.append(src[-1].args[0])
            recv = src[-1].recv
        else:
            return None
    return None


def plain(v):
    while v.k == "app" and v.a[0] in ("str", "int") and len(v.a) == 2:
        v = v.a[1]
    return v


def check(r):
    r.rule("On every path which puts a fragment in the table, its file was, before that, either completely written under another name and then renamed to its "
           "place, or read from its place; the place is named by the same type, checksum and index as the table's keys; loading visits every directory level "
           "the way storing made it and skips only names which storing uses for unfinished files; a new cache loads from where it stores.")
    me = V("sym", "self")
    cls = r.cls("MessageCache")
    store, load = r.method("MessageCache", "store_fragment"), r.method("MessageCache", "load_fragments")
    r.method("MessageCache", "ingest")
    temp, layout = set(), set()
    n = 0
    w = r.walker(opaque=METRICS | {"vtelem.frame.fields:to_parsed", "to_parsed", "MessageCache.content", "MessageDispatcher.service_callbacks"},
                 loop=(0, 1, 2), max_paths=20000)
    for f in [x for x in r.p.functions if x.cls is cls and x.parent is None and x.name not in ("__init__", "service_all_callbacks") and x is not load]:
        for p in r.paths(f, w):
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.name == "open" and e.fi is None and e.args:
                    mode = e.arg(1, "mode")
                    m = cval(mode) if mode is not None and is_const(mode) else "r"
                    if isinstance(m, str) and set(m) & set("wax+"):
                        r.ob("not-in-place", f.qual, writes_elsewhere(p, i, e), "a fragment is written under its final name: a crash leaves a partial fragment", e)
                if e.kind != "store" or e.val is None:
                    continue
                keys = slot(p, e.recv, e.args[0], i)
                if keys is None:
                    continue
                if len(keys) == 2 and e.val.k == "obj":
                    ok = absent_before(p, i, e.recv, e.args[0]) is not None
                    r.ob("not-replaced", f.qual, ok, "the fragments of a message are thrown away", e)
                    continue
                if len(keys) != 3:
                    continue
                n += 1
                ren = [(j, x) for j, x in enumerate(p.events[:i]) if x.kind == "call" and x.val.k != "exc" and x.fi is None and (
                    str(x.fn and x.fn.a[0] if x.fn is not None and x.fn.a else x.name).split(".")[-1] in ("replace", "rename") or x.name.split(".")[-1] in ("replace", "rename", "move"))]
                if not ren:
                    r.ob("on-disk-first", f.qual, False, "a fragment is held in memory although it is not on disk", e)
                    continue
                j, x = ren[-1]
                if len(x.args) == 2:
                    src, dst = x.args
                else:
                    src, dst = x.recv, x.args[0] if x.args else None
                dc = comps(dst) if dst is not None else None
                sc = comps(src) if src is not None else None
                opens = [(k, o) for k, o in enumerate(p.events[:j]) if o.kind == "call" and o.name == "open" and o.args and (o.args[0] == src or sc is not None and comps(o.args[0]) == sc)]
                if not opens:
                    r.ob("complete-first", f.qual, None if not any(o.kind == "call" and o.name in ("write", "write_bytes") for o in p.events[:j]) else False,
                         "what is renamed is not the file which was written", x)
                    continue
                k, o = opens[-1]
                wr = [y for y in p.events[k:j] if y.kind == "call" and y.name == "write" and y.recv == o.val]
                closed = any(y.kind == "exit_ctx" and y.recv == o.val or y.kind == "call" and y.name == "close" and y.recv == o.val for y in p.events[k:j])
                r.ob("complete-first", f.qual, len(wr) == 1 and wr[0].args[:1] == (e.val,) and closed, "a fragment's file is renamed before its data is completely written", x)
                if dc is None or sc is None or len(dc) < 4:
                    r.ob("named-by-key", f.qual, None if dc is None else False, "where a fragment is stored is not understood: %r" % dst, x)
                    continue
                ok = [bare(c) for c in dc[-3:]] == [plain(q) for q in keys] and all(c[1] == "" for c in dc)
                r.ob("named-by-key", f.qual, ok, "a fragment's file is not named after its type, checksum and index: %s" % [str(bare(c)) for c in dc[-3:]], x)
                r.ob("one-root", f.qual, dc[:-3] == [(V("attr", me, "fragment_dir"), "")], "fragments are not stored in the fragment directory", x)
                temp.add((sc[-1][1] if sc[:-1] == dc[:-1] and sc[-1][0] == dc[-1][0] else None))
                layout.add(len(dc) - len(dc[:-3]))
                dirs = [y for y in p.events[:k] if y.kind == "call" and y.name.split(".")[-1] in ("makedirs", "mkdir") and y.args and comps(y.args[0]) == dc[:-1]]
                r.ob("directory-made", f.qual, bool(dirs), "the directory of a fragment may not exist", o)
    if not n:
        raise Anchor("no fragment is ever stored")

    # loading mirrors storing
    got = 0
    me_dir = V("sym", load.params[1]) if len(load.params) > 1 else V("attr", me, "fragment_dir")
    for p in r.paths(load, r.walker(loop=(0, 1), max_paths=20000)):
        if p.kind == "exc":
            continue
        its = [e for e in p.events if e.kind == "iter"]
        r.ob("visits-all", load.qual, not left_early(p), "loading stops after the first entry", load)
        for i, e in enumerate(p.events):
            if e.kind != "store":
                continue
            keys = slot(p, e.recv, e.args[0], i)
            if keys is None:
                continue
            if len(keys) <= 2 and e.val.k == "obj":
                r.ob("not-replaced", load.qual, absent_before(p, i, e.recv, e.args[0]) is not None, "fragments loaded before are thrown away", e)
                continue
            if len(keys) != 3:
                continue
            got += 1
            op = [x for x in p.events[:i] if x.kind == "call" and x.name == "open" and x.args]
            rd = [x for x in p.events[:i] if x.kind == "call" and x.name == "read" and op and x.recv == op[-1].val and x.val == e.val]
            r.ob("loads-file", load.qual, bool(rd) and not rd[-1].args, "what is loaded is not the whole file", e)
            if not op:
                continue
            mode = op[-1].arg(1, "mode")
            r.ob("loads-bytes", load.qual, mode is not None and is_const(mode) and "b" in cval(mode), "a fragment is not loaded as bytes", op[-1])
            c = comps(op[-1].args[0])
            if c is None:
                r.ob("loads-layout", load.qual, None, "path of a fragment not understood: %r" % op[-1].args[0], op[-1])
                continue
            ok = c[0] == (me_dir, "") and len(c) == 4 and [bare(x) for x in c[1:]] == [plain(k) for k in keys] and all(
                k.k == "app" and k.a[0] == "int" for k in keys) and all(x[1] == "" for x in c)
            r.ob("loads-layout", load.qual, ok, "a fragment is loaded from another place than it is stored in, or under other keys: %s" % [str(x[0]) for x in c[1:]], op[-1])
            # each level lists the directory the previous ones name
            for lvl in range(1, 4):
                el = c[lvl][0] if len(c) > lvl else None
                src = [x for x in its if x.val == el or el is not None and mentions(el, x.val)]
                lst = [y for y in p.events if y.kind == "call" and src and (y.val == src[-1].args[0] or mentions(src[-1].args[0], y.val)) and "listdir" in y.name]
                r.ob("loads-all", load.qual, (None if not lst else bool(lst[-1].args) and comps(lst[-1].args[0]) == c[:lvl]), "the fragments of another directory are listed", lst[-1] if lst else op[-1])
        # a name is skipped only when it is not a fragment's
        lvl3 = [e for e in its if e.args[0].k == "call" and any(y.val == e.args[0] and y.args and (comps(y.args[0]) or [])[0:1] and len(comps(y.args[0])) == 3
                                                              for y in p.events if y.kind == "call" and "listdir" in y.name)]
        for e in lvl3:
            opened = any(x.kind == "call" and x.name == "open" and x.args and mentions(x.args[0], e.val) for x in p.events)
            why = None
            for _, v, pol, _ in assumes(p):
                if not mentions(v, e.val):
                    continue
                s = str(v.a[0]) if v.k in ("app", "call") else ""
                if "isdigit" in s or "isdecimal" in s or "isnumeric" in s:
                    why = "digit" if pol else "nondigit"
                elif "endswith" in s:
                    why = ("end", pol, [cval(x) for x in v.a[1:] if isinstance(x, V) and is_const(x)])
                elif v.k == "cmp" and v.a[0] == "in" and is_const(v.a[1]):
                    why = ("end", pol, [cval(v.a[1])])
            if opened:
                if temp == {None} or not temp:
                    ok = None
                else:
                    ok = all(t is None or (why == "digit" and not t.isdigit()) or (isinstance(why, tuple) and why[1] is False and why[2] and t.endswith(why[2][0])) for t in temp)
                r.ob("skips-partial", load.qual, ok, "an unfinished fragment file is loaded", e)
            else:
                ok = why == "nondigit" or isinstance(why, tuple) and why[1] is True and why[2] and not why[2][0].isdigit() and why[2][0] != ""
                r.ob("skips-only-partial", load.qual, bool(ok), "a stored fragment is not loaded", e)
        for e in its:
            if e not in lvl3:
                below = any(x.kind == "call" and "listdir" in x.name and x.args and mentions(x.args[0], e.val) for x in p.events)
                r.ob("visits-all", load.qual, below, "a directory of fragments is not looked into", e)
    if not got:
        r.ob("loads-file", load.qual, False, "no fragment is ever loaded", load)
    # a new cache loads from where it stores, once its table exists
    made = 0
    for s, st in r.construct(r.walker(opaque=METRICS | {"MessageCache.load_fragments", "MessageCache.service_all_callbacks", "DataCache.load"}, loop=(1,)), cls):
        made += 1
        evs = st.events()
        ld = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.name == "load_fragments"]
        ini = [i for i, e in enumerate(evs) if e.kind in ("write", "store") and (e.name == "fragment_data" or e.kind == "store" and e.val.k == "obj" and slot_one(evs, i, e, me))]
        sv = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "service_all_callbacks"]
        d = st.store.get(("A", s, "fragment_dir"))
        r.ob("loads-at-start", cls.name, len(ld) >= 1, "a new cache does not load the fragments stored before", ld[0][1] if ld else cls)
        if ld:
            a = ld[0][1].arg(0, load.params[1]) if len(load.params) > 1 else d
            r.ob("loads-own-dir", cls.name, a == d and d is not None, "a new cache loads from %r but stores in %r" % (a, d), ld[0][1])
            r.ob("loads-at-start", cls.name, bool(ini) and max(ini) < ld[0][0], "the fragment table is set up again after loading", ld[0][1])
            r.ob("loads-before-delivery", cls.name, not sv or ld[0][0] < sv[0], "complete messages are delivered before their fragments are loaded", ld[0][1])
    if not made:
        raise Anchor("MessageCache cannot be constructed")
    r.require("not-in-place", "complete-first", "named-by-key", "loads-layout", "skips-partial", "loads-at-start")


def slot_one(evs, i, e, me):
    return e.recv is not None and (mentions(e.recv, V("attr", me, "fragment_data")) or any(x.kind == "write" and x.name == "fragment_data" and x.val == e.recv for x in evs[:i]))


def writes_elsewhere(p, i, e):
    """The file opened for writing is renamed to another name later, or is not a fragment's."""
    c = comps(e.args[0])
    ren = [x for x in p.events[i:] if x.kind == "call" and x.name.split(".")[-1] in ("replace", "rename", "move")]
    for x in ren:
        src, dst = (x.args[0], x.args[1]) if len(x.args) == 2 else (x.recv, x.args[0] if x.args else None)
        if (src == e.args[0] or c is not None and src is not None and comps(src) == c) and dst is not None and comps(dst) != c:
            return True
    if p.kind == "exc" and not ren:
        return True if c is not None and c[-1][1] else False
    return False
