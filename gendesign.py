#!/usr/bin/env python3
"""DESIGN.md from defs/, seeded/ and known_findings.json."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
rd = lambda *p: open(os.path.join(here, *p)).read()
props = {os.path.basename(p)[:-5]: json.loads(rd(p)) for p in sorted(glob.glob(os.path.join(here, "defs", "C*.json")))}
out = [rd("defs", "design", "head.md").rstrip(), "\n## Properties\n"]
seeds = {}
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.loads(rd(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for k, d in props.items():
    if d.get("not_applicable"):
        continue
    out.append("### %s %s\n" % (k, d["title"]))
    p = os.path.join(here, "defs", "design", k + ".md")
    if os.path.exists(p):
        out.append(open(p).read().rstrip() + "\n")
    out.append("**Scope**: %s\n" % d["level_note"])
na = [(k, d) for k, d in props.items() if d.get("not_applicable")]
if na:
    out.append("## Not applicable\n")
    for k, d in na:
        out.append("* **%s %s**: %s" % (k, d["title"], d["not_applicable"]))
    out.append("")
out.append("## Planted changes and the checks that catch them\n\nAll are caught by the check of their property (and by no other check unless noted).\n")
out.append("| change | property | what it breaks |\n|---|---|---|")
for k in sorted(seeds):
    for i, d in seeds[k]:
        out.append("| %s | %s | %s |" % (i, k, d["what_it_breaks"].replace("|", "/")))
kf = json.loads(rd("known_findings.json"))["findings"]
out.append("\n## Genuine defects repaired (fix: commits in /repo)\n")
for x in kf:
    if x["status"] == "fixed":
        out.append("* " + x["note"].replace("fixed: property=", ""))
extra = os.path.join(here, "defs", "design", "fixes_extra.md")
if os.path.exists(extra):
    out.append(open(extra).read().rstrip())
out.append("\n## Known findings (recorded, not repaired)\n")
for x in kf:
    if x["status"] == "known":
        out.append("* **%s** `%s`: %s" % (x["property"], x["key"], x["note"]))
tail = os.path.join(here, "defs", "design", "tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read().rstrip())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
