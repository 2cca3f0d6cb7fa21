#!/usr/bin/env python3
"""Regenerate DESIGN.md from docs/head.md, docs/tail.md, properties.jsonl and contracts/props.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(os.path.join(here, "contracts", "props.json")))["properties"]
meta = {}
for l in open(os.path.join(here, "properties.jsonl")):
    if l.strip():
        d = json.loads(l)
        meta[d["id"]] = d
tr = []
for f in sorted(glob.glob(os.path.join(here, "contracts", "*.gvc"))):
    ls = open(f).read().splitlines()
    for i, l in enumerate(ls):
        m = re.match(r"//@ trusted (.*)", l)
        if m:
            ens = [x[3:].strip() for x in ls[i + 1:i + 8]]
            e = []
            for x in ens:
                if x.startswith(("func ", "trusted ", "pure ", "heap ")) or not x:
                    break
                e.append(x)
            tr.append("* `%s` (%s): `%s`" % (m.group(1), os.path.basename(f), " ".join(e)))
out = open(os.path.join(here, "docs", "head.md")).read().replace("TRUSTED_TABLE", "\n".join(tr))
out += "\n## 5. Per property\n"
for k, p in sorted(props.items()):
    m = meta[k]
    out += "\n### %s %s (level: %s)\n\n%s\n\n" % (k, m["title"], p["level"], m["statement"])
    if p.get("not_applicable"):
        out += "Not applicable: %s\n" % p["not_applicable"]
        continue
    if p.get("proved"):
        out += "*Proved (for all inputs):* %s\n\n" % p["proved"]
    else:
        out += "*Proved:* nothing yet.\n\n"
    if p.get("bounded"):
        out += "*Bounded stand-in:* %s\n\n" % p["bounded"]
    if p.get("assumptions"):
        out += "*Assumed:* %s.\n\n" % "; ".join(p["assumptions"])
    for g in p.get("groups", []):
        out += "* contracts `%s` (over %s): %s\n" % (g["name"], ", ".join(g["preludes"]), ", ".join("`%s`" % t for t in g["targets"]))
t = os.path.join(here, "docs", "tail.md")
if os.path.exists(t):
    out += "\n" + open(t).read()
open(os.path.join(here, "DESIGN.md"), "w").write(out)
