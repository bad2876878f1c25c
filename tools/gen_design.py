"""Writes the generated part of /verif/DESIGN.md: bounds and measured coverage of every harness, and the planted bugs.

usage: PYTHONPATH=/repo /opt/venv/bin/python tools/gen_design.py   (after a run of all quick checks)"""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "mc"))
import checks

props = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    props[d["id"]] = d["title"]

out = ["## Appendix A: harnesses, bounds and what the quick tier covers", "",
       "Generated by `tools/gen_design.py` from the checks and their last evidence files (states / transitions / complete executions).", ""]
for pid in sorted(checks.MODULES):
    chk = checks.module(pid).CHECKS[pid]
    try:
        ev = json.load(open(os.path.join(ROOT, "evidence", pid + ".json")))
    except OSError:
        ev = {"coverage": {"harnesses": []}}
    seen = {h["harness"]: h for h in ev["coverage"].get("harnesses", [])}
    out += ["### {0} {1}".format(pid, props[pid]), "", "Rule: " + chk["rule"] + ".", ""]
    for a in chk.get("assumptions", []):
        out.append("Assumed: " + a + ".")
    out.append("")
    for h in chk["harnesses"]:
        c = seen.get(h.name, {})
        num = ""
        if ev.get("tier") == "quick" and c:
            num = " [{0} / {1} / {2}]".format(c.get("states", 0), c.get("transitions", 0), c.get("traces", 0))
        out.append("* `{0}`: {1}{2}".format(h.name, h.bound, num))
    out.append("")
out += ["## Appendix B: planted bugs", "",
        "Each breaks one property while the 31 tests pass; the check of that property finds every one of them in its quick tier.", "",
        "| change | property and check | manifests with |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| {0} | {1} | {2} |".format(os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read().split("## Appendix A:")[0]
open(path, "w").write(text + "\n".join(out) + "\n")
