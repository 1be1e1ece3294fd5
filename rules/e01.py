"""E01: registry names and ids."""
from vsa.q import *
from vsa.rule import Anchor
from vsa.model import FI


def add_rule(r, fi, kind, returns_pair):
    name_of = fi.qual + " (" + fi.module.name + ")"
    w = r.walker(track_reads=True)
    ps = r.paths(fi, w)
    adds = 0
    for p in ps:
        muts = mutations(p)
        stores = [(i, e) for i, e in muts if e.kind == "store"]
        if p.raised:
            r.ob("refused-unchanged", name_of, not muts, "a registration that raises has already changed the registry", muts[0][1] if muts else fi)
            continue
        if not muts:
            if returns_pair:
                ok = tup(p.val, 0)
                r.ob("refused-reported", name_of, None if ok is None else ok == FALSE,
                     "an addition that stores nothing is reported as %r" % p.val, fi)
                pres = any(present_before(p, len(p.events), v.a[2] if v.k == "cmp" and v.a[0] == "in" else v.a[0], n)
                           is not None for v, n in _name_tests(p))
                r.ob("refused-only-if-present", name_of, pres, "an addition is refused although the name was not found to be registered", fi)
            else:
                r.ob("refused-reported", name_of, False, "an addition that stores nothing returns normally", fi)
            continue
        adds += 1
        new_id = tup(p.val, 1) if returns_pair else p.val
        if returns_pair:
            r.ob("added-reported", name_of, tup(p.val, 0) == TRUE, "a stored addition is reported as %r" % p.val, fi)
        selfv = V("sym", fi.params[0])
        inc = [(i, e) for i, e in muts if e.kind == "write" and e.recv == selfv]
        cs = {e.name for _, e in inc} | {t.a[1] for _, e in stores for x in (e.val, e.args[0]) for t in lin(x)[0]
                                         if t.k == "attr" and t.a[0] == selfv}
        if len(cs) != 1:
            r.ob("id-from-counter", name_of, None if cs else False, "no single counter attribute assigns the id (%s)" % sorted(cs), fi)
            continue
        counter = V("attr", selfv, cs.pop())
        adv = inc[-1][1].val if inc else None
        r.ob("counter-advances-by-one", name_of, adv is not None and lin_eq(adv, V("bin", "+", counter, const(1))),
             "adding does not advance the id counter by exactly one (to %r)" % adv, inc[0][1] if inc else fi)
        is_id = lambda v: v is not None and lin_eq(v, counter)
        l = lin(new_id)[0] if new_id is not None else None
        r.ob("id-from-counter", name_of, is_id(new_id) or (False if l is not None and set(l) <= {counter} else None),
             "the returned id %r is not the registry's next unused id" % new_id, fi)
        data = V("sym", fi.params[-1])
        pay = lambda v: v == data or (v.k == "attr" and v.a[0] == data)
        if returns_pair:
            nm = V("sym", fi.params[1])
            named = any(e.args[0] == nm and is_id(e.val) for _, e in stores)
            stored = any(is_id(e.args[0]) and e.val == data for _, e in stores)
        else:
            nms = [e.val for _, e in stores if is_id(e.args[0]) and mentions(e.val, data)]
            named = bool(nms)
            stored = any(e.args[0] in nms and pay(e.val) for _, e in stores)
        r.ob("id-recorded", name_of, named, "an addition does not record the name with the id it returns", stores[0][1] if stores else fi)
        r.ob("data-recorded", name_of, stored, "the data added is not stored under its %s" % ("id" if returns_pair else "name"),
             stores[0][1] if stores else fi)
        # absence established in the same critical section
        acq = None
        for i, e in stores:
            acq = ids(e) if acq is None else acq & ids(e)
        for _, e in inc:
            acq = (acq or set()) & ids(e)
        r.ob("one-critical-section", name_of, bool(acq), "the stores and the id's allocation are not in one critical section", stores[0][1] if stores else fi)
        good = False
        for i, v, pol, e in assumes(p, stores[0][0] if stores else None):
            if (v.k == "cmp" and v.a[0] == "in" and pol is False) or (v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and pol is True and v.a[1].k == "item"):
                key = v.a[1] if v.a[0] == "in" else v.a[1].a[1]
                base = v.a[2] if v.a[0] == "in" else v.a[1].a[0]
                if any((se.recv == base and se.args and se.args[0] == key) for _, se in stores) and acq and (ids(e) & acq):
                    good = True
        r.ob("absence-checked-atomically", name_of, good,
             "a name is stored without having been found absent in the same critical section", stores[0][1] if stores else fi)
        reads = [e for i, e in enumerate(p.events) if e.kind == "read" and V("attr", e.recv, e.name) == counter
                 and (not inc or i <= inc[0][0])]
        if acq and reads:
            r.ob("id-read-atomically", name_of, all(ids(e) & acq for e in reads), "the next id is read outside of the critical section that uses it",
                 reads[0])
    r.ob(kind, name_of, True if adds else None, "no adding path was found", fi)


def _name_tests(p):
    for i, v, pol, e in assumes(p):
        if v.k == "cmp" and v.a[0] == "in":
            yield v, v.a[1]
        elif v.k == "cmp" and v.a[0] == "is" and v.a[1].k == "item":
            yield v.a[1], v.a[1].a[1]


def check(r):
    r.rule("Every path through a registry's add is classified by the stores it makes: an adding path must store name and data under the "
           "counter's value, advance the counter by one, and have found the name absent, all within one acquisition of the lock; a path that "
           "refuses stores nothing. No function outside of these changes names, ids or the counter.")
    reg = r.cls("Registry")
    fams = [reg] + [c for c in r.p.subclasses.get(reg, []) if "add" in c.methods]
    for c in fams:
        if "add" not in c.methods:
            raise Anchor("Registry.add not found")
        add_rule(r, c.methods["add"], "add-analysed", True)
    er = [c for c in r.p.classes if c.name == "EnumRegistry" and not r.p.is_sub(c, reg)]
    for c in er:
        if "add" in c.methods:
            add_rule(r, c.methods["add"], "add-analysed", False)
    r.require("add-analysed", "absence-checked-atomically")
    # who may change the tables
    g = r.graph()
    allowed = {c.methods[m] for c in fams + er for m in ("add", "__init__", "init", "enum_data") if m in c.methods}
    sub = set(r.p.subclasses.get(reg, [])) | {reg}

    def writes(f):
        for e in g.evs[f]:
            if e.kind in ("write", "store", "del", "delattr") or (e.kind == "call" and e.fi is None and e.name in MUT):
                if e.kind == "write" and e.name == "curr_id" and e.recv.ty and e.recv.ty[0] == "c" and (e.recv.ty[1] in sub or e.recv.ty[1] in er):
                    yield e
                b = e.recv if e.kind != "write" else V("attr", e.recv, e.name)
                for t in subterms(b) if b is not None else ():
                    if t.k == "attr" and t.a[1] == "data" and t.a[0].ty and t.a[0].ty[0] == "c" and t.a[0].ty[1] in sub \
                            and (b.k == "item" or e.kind == "write"):
                        if b.k == "item" and is_const(b.a[1], "global_mappings"):
                            continue
                        yield e
    n = 0
    for f in g.evs:
        for e in writes(f):
            n += 1
            ok = f in allowed
            if not ok:
                # a helper reachable only from the allowed functions
                seen, todo, ok = set(), [f], True
                while todo:
                    x = todo.pop()
                    if x in seen or x in allowed:
                        continue
                    seen.add(x)
                    cs = g.callers.get(x, set())
                    if not cs:
                        ok = False
                    todo.extend(cs)
            r.ob("only-add-changes-tables", f.qual, ok, "%s changes a registry's names, ids or data outside of adding" % f.qual, e)
    r.require("only-add-changes-tables")
    # ids of a loaded enum registry are not reused
    for c in er:
        if "init" in c.methods:
            fi = c.methods["init"]
            w = r.walker(opaque={"max_key", "UserEnum.__init__"}, loop=(0, 1))
            for p in r.paths(fi, w):
                for e in p.events:
                    if e.kind == "write" and e.name == "curr_id":
                        l, c0 = lin(e.val)
                        t = list(l)[0] if len(l) == 1 else None
                        ok = None
                        if t is not None and l[t] == 1:
                            nm = str(t.a[0]) if t.k in ("call", "app") else ""
                            if nm.endswith("max_key") or nm == "max":
                                ok = c0 == 1
                            elif nm == "len":
                                ok = False
                        elif not l:
                            ok = False
                        r.ob("loaded-ids-not-reused", fi.qual, ok, "the next id after loading is %r" % e.val, e)
