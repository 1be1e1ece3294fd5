"""Queries over walked paths."""
from .model import CI, FI
from .values import FALSE, NONE, TRUE, V, const, cval, is_const, is_none, lin, lin_eq, lin_sub, mentions, show, subterms  # noqa

MUT = {"append", "add", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "discard", "update", "popleft",
       "appendleft", "setdefault", "popitem", "put", "put_nowait"}


def root(v):
    while isinstance(v, V) and v.k in ("attr", "item", "elem", "key") and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def fresh(v):
    """Created on this path (an object, list or dict the path itself made)."""
    v = root(v) if isinstance(v, V) else None
    return v is not None and v.k == "obj" and not (isinstance(v.a[1], int) and v.a[1] >= 1000000)       # a module's own objects exist before


def mutations(path, into=None):
    """[(index, event)] of effects on objects that existed before the path (or rooted at `into`)."""
    out = []
    for i, e in enumerate(path.events):
        if e.kind in ("write", "store", "del", "delattr") or (e.kind == "call" and e.fi is None and e.name in MUT):
            if e.recv is None or (fresh(e.recv) and into is None):
                continue
            if into is not None and root(e.recv) != into:
                continue
            out.append((i, e))
    return out


def held(e, lock=None, suffix=None):
    """Acquisition id under which `e` runs for the given lock value (or any lock attribute)."""
    for v, i in e.locks:
        if lock is None or v == lock:
            return i
    return None


def ids(e):
    return {i for _, i in e.locks}


def assumes(path, upto=None, since=0):
    for i, e in enumerate(path.events[since:upto], since):
        if e.kind == "assume":
            yield i, e.val, e.pol, e


def absent_before(path, idx, base, key):
    """Index of the event establishing that `key` is not in `base` (or None), valid at event idx."""
    last = None
    for i, e in enumerate(path.events[:idx]):
        if e.kind == "assume":
            v = e.val
            if v.k == "cmp" and v.a[0] == "in" and v.a[1] == key and v.a[2] == base and e.pol is False:
                last = i
            elif v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and e.pol is True and v.a[1].k == "item" \
                    and v.a[1].a[0] == base and v.a[1].a[1] == key:
                last = i
        elif e.kind == "store" and e.recv == base and e.args and e.args[0] == key:
            last = None
    return last


def present_before(path, idx, base, key):
    for i, e in enumerate(path.events[:idx]):
        if e.kind == "assume":
            v = e.val
            if v.k == "cmp" and v.a[0] == "in" and v.a[1] == key and v.a[2] == base and e.pol is True:
                return i
            if v.k == "cmp" and v.a[0] == "is" and is_none(v.a[2]) and e.pol is False and v.a[1].k == "item" \
                    and v.a[1].a[0] == base and v.a[1].a[1] == key:
                return i
            if v.k == "item" and v.a[0] == base and v.a[1] == key and e.pol is True:
                return i
    return None


def ends_with_raise(p):
    return p.kind == "exc"


def tup(v, i):
    return v.a[i] if isinstance(v, V) and v.k == "tup" and i < len(v.a) else None


def left_early(p, src=None):
    """True when a loop over an unknown sequence was left after its first element although more may remain, or before its natural end later on."""
    n = {}
    for e in p.events:
        if e.kind == "iter" and e.args and (src is None or e.args[0] == src):
            k = e.args[0]
            if k.k not in ("obj", "class") and not (k.k == "app" and k.a[0] == "range"):
                n.setdefault((id(e.node), k), []).append(e.val)
    if any(len(v) == 1 and not any(f.k == "app" and f.a[0] == "more" and (f.a[1] == k or mentions(k, f.a[1]) or mentions(f.a[1], k)) for f in p.facts)
           for (_, k), v in n.items()):
        return True
    return any(isinstance(f, tuple) and f[0] == "left" and any(k == f[1] and len(v) > 1 for (_, k), v in n.items()) for f in p.flags)
