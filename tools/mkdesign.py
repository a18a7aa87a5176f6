#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one entry per property, tools/design_tail.md, the planted changes."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = here + "/.."
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
table = {}
for f in sorted(os.listdir(root + "/engine")):
    if not f.startswith("table"): continue
    src = open(root + "/engine/" + f).read()
    src = re.sub(r'"\s*\+\s*"', "", src)
    src = re.sub(r",\n\t\t\tBounds", ", Bounds", src)
    cur = None
    for line in src.splitlines():
        m = re.search(r'prop\("([A-Z]\d\d)"', line)
        if m: cur = table.setdefault(m.group(1), [])
        m = re.search(r'Entry\{Fn: "([^"]+)"(.*)Bounds: "([^"]*)"', line)
        if m and cur is not None:
            q = re.search(r'Quick: P\{([^}]*)\}', m.group(2)); t = re.search(r'Thorough: P\{([^}]*)\}', m.group(2))
            clean = lambda x: x.group(1).replace('"', '').replace(': ', '=') if x else ""
            flags = [n for k, n in (("Int: true", "int"), ("Race: true", "race"), ("MapOrder: true", "map order")) if k in m.group(2)]
            cur.append((m.group(1), clean(q), clean(t), m.group(3), flags))
how = {}
for part in re.split(r'^## ', open(here + "/design_props.md").read(), flags=re.M)[1:]:
    k, _, v = part.partition("\n")
    how[k.strip()] = v.strip()
out = [open(here + "/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", how.get(i, "MISSING"), ""]
    for fn, q, t, b, fl in table.get(i, []):
        tiers = ""
        if q or t: tiers = " (%s%s)" % ("quick " + q if q else "quick default", "; thorough " + t if t and t != q else "")
        out.append("- `%s`%s: %s" % (fn, tiers, b))
    out.append("")
out += [open(here + "/design_tail.md").read().rstrip(), "", "## Planted changes", "",
        "Each was written from the property's text and the code, passes the repository's tests and has a demonstration",
        "that fails with it. The check named is the quick check of the property.", "",
        "| change | property | what it needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % s))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), caught.get(s, "not caught")))
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
missing = [p["id"] for p in props if p["id"] not in how]
print(len(props), "properties", "missing", missing)
