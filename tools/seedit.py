"""Author and confirm planted bugs: seedit.py FILE.py ...
Each FILE.py (outside /verif) defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source, run with /repo importable).
Confirms in scratch copies, bound over /repo in a private namespace, that the patch touches only original lines, builds, passes the stable tests, and
that the demonstration tells the two trees apart; then writes seeded/<ID>/ and says which checks catch it."""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "34cbe6b"
SH = '''#!/bin/bash
# exit 0: the property holds in /repo; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec timeout 120 "$py" -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(tree, cmd, timeout=900):
    return subprocess.run(["unshare", "-Urmn", "bash", "-c", "ip link set lo up; mount --bind %s /repo && cd /repo && %s" % (tree, cmd)], capture_output=True, text=True, timeout=timeout)


def one(path):
    ns = runpy.run_path(path)
    sid = ns["ID"]
    d = tempfile.mkdtemp(prefix="seed_")
    log = []
    try:
        tree = d + "/repo"
        sh("cp -a /repo %s" % tree)
        for f, a, b in ns["EDITS"]:
            p = tree + "/vtelem/" + f
            s = open(p).read()
            if s.count(a) != 1:
                return sid, False, "edit matches %d times: %r" % (s.count(a), a[:60])
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C %s diff" % tree).stdout
        # removed lines must be original
        blame_bad = []
        cur = None
        for ln in diff.split("\n"):
            if ln.startswith("--- a/"):
                cur = ln[6:]
                bl = sh("git -C /repo blame -s HEAD -- %s" % cur).stdout.split("\n")
                old = 0
            elif ln.startswith("@@"):
                old = int(re.match(r"@@ -(\d+)", ln).group(1))
            elif ln.startswith("-"):
                if not bl[old - 1].startswith("^") and sh("git -C /repo merge-base --is-ancestor %s %s" % (bl[old - 1].split()[0], BASE)).returncode:
                    blame_bad.append(ln)
                old += 1
            elif ln.startswith(" "):
                old += 1
        if blame_bad:
            log.append("lines not original: %s" % blame_bad)
        if not any(x.startswith("-") and not x.startswith("---") for x in diff.split("\n")):
            log.append("no original line changed")
        out = d + "/seeded"
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(ns["DEMO"].lstrip())
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % out, cwd="/repo")
        if r.returncode:
            log.append("demo fails on the unchanged tree: %s" % (r.stdout + r.stderr)[-500:])
        r = inside(tree, "bash %s/demo.sh" % out)
        if not r.returncode:
            log.append("demo passes with the patch")
        else:
            log.append("[demo says: %s]" % (r.stdout + r.stderr).strip()[-160:])
        if not os.environ.get("SEED_NOTEST"):
            r = inside(tree, "bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1; echo done" % d)
            if "BUILDFAIL" in r.stdout:
                log.append("does not build")
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = json.load(open(d + "/out.json"))
            names = base["stable"]
            miss = [t for t in names if t not in set(res.get("passed", []))]
            if miss:
                log.append("tests fail: %s" % miss[:5])
        chk = []
        claimed = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
        for pid in claimed:
            r = subprocess.run([sys.executable, ROOT + "/check.py", pid], capture_output=True, text=True, cwd=ROOT, env=dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=d + "/ev"))
            if r.returncode:
                chk.append("%s=%d" % (pid, r.returncode))
        bad = [x for x in log if not x.startswith("[")]
        if not bad and not os.environ.get("SEED_NOTEST"):
            dst = ROOT + "/seeded/" + sid
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            shutil.copytree(out, dst)
        own = ns["PROPERTY"]
        return sid, not bad, "%s caught by: %s %s" % ("" if any(c == own + "=1" for c in chk) else "NOT CAUGHT by %s;" % own, " ".join(chk) or "none", " ".join(log))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for sid, ok, msg in ex.map(one, sys.argv[1:]):
            print(sid, "OK" if ok else "REJECTED", msg, flush=True)
