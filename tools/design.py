#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.in (the text), props.py, the rules in the evidence of the last run, mutants.py and the seeds."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
M = []
exec(open(os.path.join(ROOT, "tools", "mutants.py")).read())
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
tech = {c["property"]: c["technique"] for c in man["checks"]}
note = {c["property"]: c["level_note"] for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
text = open(os.path.join(ROOT, "tools", "design.md.in")).read()
notes = {}
head, rest = text.split("<<<NOTES>>>\n")
body, tail = rest.split("<<<END>>>\n")
for part in re.split(r"(?m)^## (?=[CGTS]\d\d)", body)[1:]:
    k, t = part.split("\n", 1)
    notes[k.strip()] = t.strip()
seeds = {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    f = os.path.join(ROOT, "seeded", d, "meta.json")
    if os.path.exists(f):
        j = json.load(open(f))
        seeds.setdefault(j["property"], []).append((d, j["needs"]))
out = [head]
for x in P:
    i = x["id"]
    out.append("### %s. %s\n" % (i, x["title"]))
    if i in na:
        out.append("Not claimed: %s\n" % na[i])
        continue
    out.append("Technique: %s." % tech[i].replace("static analysis: ", ""))
    e = os.path.join(ROOT, "evidence", i + ".json")
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        out.append("Last run: %s obligations over %s functions and %s call sites.\n" % (c["obligations"], c["functions_analysed"], c["call_sites"]))
        for k, v in sorted(c["rules"].items()):
            out.append("- *%s*: %s." % (k, v["text"].rstrip(".")))
    if i in notes:
        out.append("\n" + notes[i])
    if not note[i].startswith("Decided from"):
        out.append("\nAssumes: %s." % note[i])
    bad = [m[0] for m in M if i in m[1] and m[-1] == "bad"]
    ok = [m[0] for m in M if i in m[1] and m[-1] == "ok"]
    out.append("\nReported here: %s%s." % (", ".join(bad) or "(none planted)", ("; seeds " + ", ".join("%s (%s)" % s for s in seeds[i])) if i in seeds else ""))
    if ok:
        out.append("Behaviour-keeping changes that stay quiet: %s." % ", ".join(ok))
    out.append("")
out.append(tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
