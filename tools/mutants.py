"""Self-test: every variant in tools/variants/*.py is applied to a scratch copy of /repo/vtelem and the named checks are run on it.
A variant is (check ids, file, old, new[, old, new...]); BREAK variants must be reported, KEEP variants must stay quiet.
usage: [MUT_BASE=DIR] python3 tools/mutants.py [ID ...] [VARIANT-FILE ...] [-v]"""
import concurrent.futures
import glob
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def one(job):
    kind, n, ids, f, subs = job
    d = tempfile.mkdtemp(prefix="vsa_mut_")
    try:
        shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/vtelem", d + "/vtelem", ignore=shutil.ignore_patterns("__pycache__"))
        fs = [f] * (len(subs) // 2)
        i = 0
        cur = f
        for a, b in zip(subs[::2], subs[1::2]):
            if a.startswith("@"):
                cur, a = a[1:].split("\n", 1)
            p = d + "/vtelem/" + cur
            s = open(p).read()
            if s.count(a) < 1:
                return kind, n, ids, "STALE (%r not in %s)" % (a[:50], cur), ""
            open(p, "w").write(s.replace(a, b, 1))
        try:
            for p in glob.glob(d + "/vtelem/**/*.py", recursive=True):
                compile(open(p).read(), p, "exec")
        except SyntaxError as e:
            return kind, n, ids, "SYNTAX %s" % e, ""
        bad, outs = [], ""
        for pid in ids:
            r = subprocess.run([sys.executable, ROOT + "/check.py", pid], capture_output=True, text=True, cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), timeout=900)
            outs += r.stdout + r.stderr[-1500:]
            want = 1 if kind == "BREAK" else 0
            if r.returncode != want:
                bad.append("%s rc=%d" % (pid, r.returncode))
        return kind, n, ids, ("ok" if not bad else ("MISSED " if kind == "BREAK" else "ALARM ") + " ".join(bad)), outs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-") and a in {f[:-3].upper() for f in os.listdir(ROOT + "/rules")}]
    files = [a for a in sys.argv[1:] if not a.startswith("-") and a not in want]
    verbose = "-v" in sys.argv
    have = {f[:-3].upper() for f in os.listdir(ROOT + "/rules") if f.endswith(".py") and f[0] != "_"}
    jobs = []
    for f in sorted(glob.glob(HERE + "/variants/*.py")):
        if files and os.path.basename(f)[:-3] not in files:
            continue
        ns = runpy.run_path(f)
        for kind in ("BREAK", "KEEP"):
            for n, v in enumerate(ns.get(kind, [])):
                ids = [i for i in v[0].split() if i in have and (not want or i in want)]
                if kind == "KEEP" and v[0] == "*":
                    ids = sorted(h for h in have if (not want or h in want))
                if ids:
                    jobs.append((kind, "%s:%s%d" % (os.path.basename(f)[:-3], kind[0], n), ids, v[1], v[2:]))
    nbad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for kind, n, ids, res, out in ex.map(one, jobs):
            if res != "ok":
                nbad += 1
            if res != "ok" or verbose:
                print(n, " ".join(ids), res)
                print("    " + (out if verbose else "\n".join(x[:230] for x in out.splitlines() if " held: " not in x)[:700]).replace("\n", "\n    "))
    print("%d variants, %d not as expected" % (len(jobs), nbad))
    return 1 if nbad else 0


if __name__ == "__main__":
    sys.exit(main())
