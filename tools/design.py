"""Writes /verif/DESIGN.md from tools/design/head.md, the properties, the rule texts, the notes, the fixed findings and the planted bugs."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design.notes import NOTES, TAIL  # noqa


def texts(pid):
    """(rule text, assumptions) of a rule module."""
    t = ast.parse(open(os.path.join(ROOT, "rules", pid.lower() + ".py")).read())
    rule, assume = [], []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "r" and n.args:
            a = n.args[0]
            if isinstance(a, ast.BinOp):
                a = a.left
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                if n.func.attr == "rule":
                    rule.append((n.lineno, a.value))
                elif n.func.attr == "assume":
                    assume.append((n.lineno, a.value))
    return [x for _, x in sorted(rule)], [x for _, x in sorted(assume)]


def main():
    out = [open(os.path.join(HERE, "design", "head.md")).read().rstrip(), ""]
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    fixed = {}
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith("fixed:"):
            w = l.split(None, 3)
            fixed.setdefault(w[1].split("=")[1], []).append((w[2], w[3].strip()))
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        d["id"] = os.path.basename(os.path.dirname(m))
        seeds.setdefault(d["property"], []).append(d)
    nb = {}
    for f in glob.glob(os.path.join(HERE, "variants", "*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for v in ns["BREAK"]:
            for i in v[0].split():
                nb[i] = nb.get(i, 0) + 1
    out += ["## Properties", ""]
    for d in props:
        pid = d["id"]
        if pid in na:
            continue
        out += ["### %s %s" % (pid, d["title"]), "", d["statement"], ""]
        rule, assume = texts(pid)
        out.append("*Decides.* " + " ".join(rule))
        if assume:
            out.append("")
            out.append("*Assumes.* " + " ".join(assume))
        out.append("")
        out.append("*Why here.* Quantified over %s; %s." % (d["quantifier"]["text"], d["why_tests_cant"]))
        if pid in NOTES:
            out += ["", "*Scope.* " + NOTES[pid]]
        if fixed.get(pid):
            out += ["", "*Defects repaired.* " + "; ".join("%s (%s)" % (t, c) for c, t in fixed[pid]) + "."]
        out += ["", "*Tested with* %d breaking variants%s." % (nb.get(pid, 0), "".join("; planted %s" % s["id"] for s in seeds.get(pid, [])))]
        out.append("")
    out += ["## Not applicable", ""]
    for d in props:
        if d["id"] in na:
            out.append("* %s %s: %s" % (d["id"], d["title"], na[d["id"]]))
    out += ["", "## Planted bugs", "", "All confirmed in scratch copies (applies, builds, stable tests pass, demo passes before and fails after) by `tools/seedit.py`.", ""]
    for pid in sorted(seeds):
        for s in seeds[pid]:
            out.append("* %s: %s Needs: %s Caught by %s." % (s["id"], s["what_it_breaks"].rstrip("."), s["needs"].rstrip("."), s.get("caught", pid)))
    out += ["", TAIL.strip(), ""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
