"""Rule context: obligations, violations, coverage counts, evidence and known findings."""
import json
import ast
import os
import sys
import time

from .model import FI, ModelError, Program
from .values import V
from .walk import Ev, Walker

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
with open(os.path.join(ROOT, "vsa", "known.txt")) as _known:
    KNOWN = {x.strip() for x in _known if not x.startswith("#")}

# Reporting helpers whose effects (metric channels, counters) no rule but their own depends on.
METRICS = {"DaemonBase.increment_metric", "DaemonBase.decrement_metric", "DaemonBase.reset_metric", "DaemonBase.set_env_metric",
           "ChannelEnvironment.set_metric", "ChannelEnvironment.metric_add", "ChannelEnvironment.add_metric",
           "TelemetryEnvironment.add_enum_metric", "TelemetryEnvironment.set_enum_metric"}
TYPES = {("MeteredQueue", "env"): "ChannelEnvironment", ("TelemetryServer", "time_keeper"): "TimeKeeper",
         ("__init__", "time_keeper"): "TimeKeeper", ("add_slave", "slave"): "TimeEntity",
         ("register_http_handlers", "server"): "TelemetryServer"}


class Anchor(Exception):
    """A public construct a rule is anchored on is gone."""


class R:
    def __init__(self, pid, tier, prog=None):
        self.pid, self.tier = pid, tier
        self.p = prog or Program(REPO)
        self.obs = []            # (kind, construct, ok, msg, loc)
        self.fns, self.npaths, self.nevents = set(), 0, 0
        self.undecided = []
        self.rules = []          # textual rules applied
        self.assumptions = []
        self.need = []           # kinds which must have at least one instance
        self.walks = 0
        self.exhausted = False

    # -- anchors
    def cls(self, name):
        try:
            return self.p.cls(name)
        except ModelError as e:
            raise Anchor(str(e))

    def method(self, cls, name):
        try:
            return self.p.method(cls, name)
        except ModelError as e:
            raise Anchor(str(e))

    def func(self, mod, name):
        try:
            return self.p.func(mod, name)
        except ModelError as e:
            raise Anchor(str(e))

    # -- walking
    def walker(self, **kw):
        kw.setdefault("opaque", METRICS)
        kw.setdefault("assert_fork", False)
        kw.setdefault("max_paths", 4000 if self.tier == "quick" else 12000)
        ty = {k: ("c", self.p.cls(v)) for k, v in TYPES.items() if any(c.name == v for c in self.p.classes)}
        if ("TimeKeeper", "slaves") not in ty and any(c.name == "TimeEntity" for c in self.p.classes):
            ty[("TimeKeeper", "slaves")] = ("list", ("c", self.p.cls("TimeEntity")))
        ty.update(kw.pop("types", None) or {})
        kw["types"] = ty
        return Walker(self.p, **kw)

    def note_walk(self, w, paths, what):
        self.walks += 1
        self.fns |= {f.qual for f in w.visited}
        self.npaths += len(paths)
        self.nevents += sum(len(p.events) for p in paths)
        if w.truncated:
            self.undecided.append("%s: %s" % (what, "; ".join(w.notes)))
            w.truncated = False
            self.exhausted = True

    def paths(self, fi, w=None, **kw):
        w = w or self.walker()
        ps = w.entry_any(fi, **kw)
        self.note_walk(w, ps, fi.qual)
        return ps

    def call(self, w, fv, args=(), st=None, **kw):
        ps = w.call_value(fv, args, st=st, **kw)
        self.note_walk(w, ps, repr(fv))
        return ps

    def construct(self, w, ci, args=None, kw=None):
        out = w.construct(ci, args, kw)
        self.note_walk(w, [], ci.name)
        return out

    def named_callers(self, fi):
        """Functions whose code mentions fi's name in a call or as a value (an over-approximation of its callers)."""
        if getattr(self, "_mentions", None) is None:
            self._mentions = {}
            for f in self.p.functions:
                for n in ast.walk(f.node):
                    nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if nm:
                        self._mentions.setdefault(nm, set()).add(f)
        return {f for f in self._mentions.get(fi.name, ()) if f is not fi}

    def private(self, fi):
        """True when nobody outside is meant to call fi: its name says so, or it is new (extracted from known functions which call it)."""
        if fi.name.startswith("_"):
            return not fi.name.startswith("__")
        if fi.is_lambda or fi.parent is not None or not self.named_callers(fi):
            return False
        if fi.cls is None:
            return fi.qual not in KNOWN
        fam = [c for c in self.p.mro(fi.cls)] + [c for c in self.p.classes if self.p.is_sub(c, fi.cls)]
        return not any("%s.%s" % (getattr(c, "name", c), fi.name) in KNOWN for c in fam)

    def helper_of(self, fi, roots):
        """True when fi is a private function whose every (possible) caller is one of roots or such a helper."""
        todo, seen = [fi], set()
        while todo:
            f = todo.pop()
            if f in roots or f in seen:
                continue
            seen.add(f)
            cs = self.named_callers(f)
            if not self.private(f) or not cs:
                return False
            todo.extend(cs)
        return True

    def graph(self):
        if getattr(self, "_graph", None) is None:
            from .graph import Graph
            self._graph = Graph(self)
            self.fns |= {f.qual for f in self._graph.evs}
            self.nevents += sum(len(x) for x in self._graph.evs.values())
            for f in self._graph.trunc:
                self.undecided.append("shallow walk of %s truncated" % f)
        return self._graph

    # -- results
    def ob(self, kind, construct, ok, msg="", at=None):
        """Record one obligation. ok True (holds), False (violated), None (not decidable here)."""
        ok = None if ok is None else bool(ok)
        if ok is False and self.exhausted and not isinstance(at, Ev):
            ok = None  # nothing found, but not everything was walked
        loc = at if isinstance(at, str) else (at.where if at is not None and hasattr(at, "where") else (at.loc() if isinstance(at, FI) else ""))
        self.obs.append((kind, construct, ok, msg, loc))
        if ok is None:
            self.undecided.append("%s @ %s: %s" % (kind, construct, msg))
        return ok

    def rule(self, text):
        self.rules.append(text)

    def require(self, *kinds):
        self.need.extend(kinds)

    def assume(self, text):
        self.assumptions.append(text)


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property="):
                rest = ln[len("finding: property="):]
                pid, rest = rest.split(" ", 1)
                key, text = rest[len("key="):].split(" ", 1)
                out.append((pid, key, text))
    return out


def run(pid, tier, mod):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    r = None
    err = None
    try:
        r = R(pid, tier)
        mod.check(r)
        for k in r.need:
            if not any(o[0] == k for o in r.obs):
                raise Anchor("rule %s of %s matched nothing" % (k, pid))
    except (Anchor, ModelError) as e:
        err = str(e)
        if r is not None and r.exhausted:
            r.undecided.append(err)
            err = None
    except Exception as e:  # an analysis that cannot finish gives no answer
        import traceback
        if os.environ.get("VSA_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    if err is not None and not (r is not None and any(o[2] is False for o in r.obs)):
        print("ERROR property=%s analysis broken: %s" % (pid, err))
        return 2
    viol, seen = [], set()
    for kind, cons, ok, msg, loc in r.obs:
        if ok is False:
            key = "%s@%s" % (kind, cons)
            if key in seen:
                continue
            seen.add(key)
            viol.append((key, msg, loc))
    known = [k for k in known_findings() if k[0] == pid]
    new = []
    for key, msg, loc in viol:
        hit = [k for k in known if k[1] == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
        else:
            new.append((key, msg, loc))
    byk = {}
    for kind, cons, ok, msg, loc in r.obs:
        d = byk.setdefault(kind, {"instances": set(), "checked": 0, "held": 0, "violated": 0, "undecided": 0})
        d["instances"].add(cons)
        d["checked"] += 1
        d["held" if ok else ("violated" if ok is False else "undecided")] += 1
    for d in byk.values():
        d["instances"] = sorted(d["instances"])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": "Static analysis of the current source: " + " ".join(r.rules),
                       "obligations": len(r.obs), "discharged": sum(1 for o in r.obs if o[2] is True),
                       "by_rule": byk, "functions_analysed": sorted(r.fns), "functions": len(r.fns), "walks": r.walks,
                       "paths": r.npaths, "events": r.nevents, "modules_parsed": len(r.p.modules),
                       "undecided": sorted(set(r.undecided))[:60], "undecided_count": len(set(r.undecided)),
                       "samples": ["%s @ %s (%s)" % (o[0], o[1], o[4]) for o in r.obs[:8]]},
          "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(EVD, pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, msg, loc in new:
                f.write("%s\n  %s\n  at %s\n" % (key, msg, loc))
        for key, msg, loc in new:
            print("  %s: %s [%s] at %s" % (pid, msg, key, loc))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property=%s held: %d obligations, %d functions, %d paths, %d undecided, %.1fs"
          % (pid, len(r.obs), len(r.fns), r.npaths, len(set(r.undecided)), time.time() - t0))
    return 0
