"""G02: stopping a server and changing its speed always complete."""
from rules.g01 import *
from rules.g01 import performs, http_known, QUIETS


def check(r):
    r.rule("Every path of TelemetryServer.stop_all, whatever the operations report: all daemons are asked to stop once; then the server itself once if its HTTP flag is set; then its socket is closed, then its clients are removed, and its waiters are released once, "
           "also when an operation reported failure; the method ends in an error only after all of that. scale_speed: daemons are paused once, the scale handed to the keeper once after it, and the daemons resumed once after that, on every way out, "
           "also when pausing fails or scaling raises; it ends in an error only after that. booted: the server is stopped once on every way out of the block, also when starting fails. await_shutdown: when the wait times out or is interrupted the server is stopped.")
    r.assume("Asking a daemon to stop, pause or resume reports failure by its result; the one operation modelled as raising is the scaling.")
    # stopping
    f = r.method("TelemetryServer", "stop_all")
    quiet = QUIETS
    n = 0
    for p in r.paths(f, r.walker(opaque=quiet, assert_fork=True, try_raise=False)):
        a, s = performs(p, r, "STOP")
        on = http_known(p)
        pos = {id(e): i for i, e in enumerate(p.events)}
        cl = [e for e in p.events if e.kind == "call" and e.name == "close" and e.recv == SELF]
        rm = [e for e in p.events if e.kind == "call" and e.name == "remove_all"]
        rl = [e for e in p.events if e.kind == "call" and e.name == "release" and e.recv == V("attr", SELF, "state_sem")]
        how = "when a step fails" if p.kind == "exc" else "in the end"
        n += 1
        r.ob("stop-complete", f.qual, len(a) == 1, "daemons are asked to stop %d times %s" % (len(a), how), a[-1] if a else f)
        r.ob("stop-complete", f.qual, on is not None and (not on or len(s) == 1), "the HTTP service is not stopped %s" % how, f)
        r.ob("stop-complete", f.qual, len(cl) == 1, "the HTTP socket is closed %d times %s" % (len(cl), how), f)
        r.ob("stop-complete", f.qual, len(rm) >= 1, "the clients are not removed %s" % how, f)
        r.ob("stop-complete", f.qual, len(rl) == 1, "the waiters are released %d times %s" % (len(rl), how), f)
        if s and cl:
            r.ob("stop-order", f.qual, pos[id(s[0])] < pos[id(cl[0])], "the HTTP socket is closed before its service is stopped", cl[0])
        if a and rl:
            r.ob("stop-order", f.qual, pos[id(rl[-1])] > max(pos[id(e)] for e in a + s), "the waiters are released before the services have stopped", rl[-1])
    # speed
    f = r.method("TelemetryServer", "scale_speed")
    amt = V("sym", f.params[1])
    keeper = r.method("TimeKeeper", "scale")
    for p in r.paths(f, r.walker(opaque=quiet | {"TimeKeeper.scale"}, assert_fork=True, try_raise=False, raises=lambda e: ["?"] if e.fi is keeper else [])):
        pa, _ = performs(p, r, "PAUSE")
        un, _ = performs(p, r, "UNPAUSE")
        sc = [e for e in p.events if e.kind == "call" and e.fi is keeper]
        pos = {id(e): i for i, e in enumerate(p.events)}
        how = "when it fails" if p.kind == "exc" else "in the end"
        r.ob("resumed", f.qual, not pa or len(un) == 1 and pos[id(un[0])] > max(pos[id(e)] for e in pa + sc), "the daemons are left paused %s" % how, pa[0] if pa else f)
        r.ob("paused-around", f.qual, len(pa) == 1 and all(pos[id(e)] > pos[id(pa[0])] for e in sc), "the speed changes without the daemons having been paused", sc[0] if sc else f)
        r.ob("speed-changes", f.qual, len(sc) == 1 and sc[0].arg(0, "scalar") == amt and sc[0].recv == V("attr", SELF, "time_keeper"), "the keeper is given %s" % (show(sc[-1].arg(0)) if sc else "no speed"), sc[-1] if sc else f)
    # the block
    f = r.method("TelemetryServer", "booted")
    starts, stops = r.method("TelemetryServer", "start_all"), r.method("TelemetryServer", "stop_all")
    ways = set()
    for p in r.paths(f, r.walker(opaque=quiet, assert_fork=True, try_raise=False, raises=lambda e: ["?"] if e.fi is starts else [])):
        st = [i for i, e in enumerate(p.events) if e.kind == "call" and e.fi is starts]
        sp = [i for i, e in enumerate(p.events) if e.kind == "call" and e.fi is stops]
        yl = [i for i, e in enumerate(p.events) if e.kind == "yield"]
        ways.add((bool(yl), p.kind))
        r.ob("block-started", f.qual, not yl or len(st) == 1 and st[0] < yl[0], "the block runs without the server having been started", f)
        r.ob("block-stopped", f.qual, len(sp) == 1 and sp[0] > max(st + yl + [-1]), "the server is stopped %d times when %s" % (len(sp), "starting fails" if not yl else "the block fails" if p.kind == "exc" else "the block ends"), f)
    r.ob("block-stopped", f.qual, (True, "normal") in ways, "the block is never run", f)
    # waiting
    f = r.method("TelemetryServer", "await_shutdown")
    for p in r.paths(f, r.walker(opaque=quiet, assert_fork=True, try_raise=False, raises=lambda e: ["KeyboardInterrupt"] if e.name == "acquire" else [])):
        sp = [e for e in p.events if e.kind == "call" and e.fi is stops]
        acq = [e for e in p.events if e.kind == "call" and e.name == "acquire"]
        broken = any(e.val is not None and e.val.k == "exc" for e in acq)
        timed = any(v.k in ("call", "not") and any(e.val == (v.a[0] if v.k == "not" else v) for e in acq) and pol == (v.k == "not") for _, v, pol, _e in assumes(p))
        if broken or timed:
            r.ob("wait-stops", f.qual, len(sp) == 1, "the server is stopped %d times when the wait %s" % (len(sp), "is interrupted" if broken else "times out"), f)
        else:
            r.ob("wait-stops", f.qual, not sp, "the server is stopped although it has shut down", sp[0] if sp else f)
    r.require("stop-complete", "resumed", "speed-changes", "block-stopped", "wait-stops")
