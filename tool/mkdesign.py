#!/usr/bin/env python3
"""DESIGN.md: replaces the generated sections (rules per property, planted bugs) between their markers"""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
import ctx as C
for m in sorted(f[:-3] for f in os.listdir(C.HERE) if f.startswith("r_") and f.endswith(".py")):
    importlib.import_module(m)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
arg = {}
for part in re.split(r"^#### ", open(V + "/tool/arguments.md").read(), flags=re.M)[1:]:
    k, t = part.split("\n", 1)
    arg[k.strip()] = t.strip()
out = []
for p in props:
    rs = [r for r in C.RULES if p["id"] in r.props]
    if not rs:
        continue
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(arg.get(p["id"], "") + "\n")
    out.append("Rules: " + ", ".join("`%s`" % r.id for r in rs) + ".\n")
seeds = []
sd = V + "/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open("%s/%s/meta.json" % (sd, d)))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", "").replace("|", "/")))
rules = ["| rule | properties | obligation |", "|---|---|---|"] + ["| `%s` | %s | %s |" % (r.id, " ".join(r.props), r.text.replace("|", "/")) for r in C.RULES]
sec = {"PROPERTIES": "\n".join(out), "RULES": "\n".join(rules),
       "SEEDS": "\n".join(["| id | property | what it breaks | caught by |", "|---|---|---|---|"] + seeds)}
s = open(V + "/DESIGN.md").read()
for k, t in sec.items():
    s = re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (k, k), lambda m: m.group(1) + t + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(props), "properties", len(C.RULES), "rules", len(seeds), "seeds")
