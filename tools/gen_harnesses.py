#!/usr/bin/env python3
"""Writes HARNESSES.md: every harness, what it decides, its bounds (quick / thorough)."""
import re, glob, os, json
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(root + "/properties.jsonl")}
out = ["# Harnesses\n", "Generated by tools/gen_harnesses.py.  Bounds are `quick / thorough`; what a harness fixes is in its source.\n"]
for f in sorted(glob.glob(root + "/harness/h/c[0-9]*.go")):
    i = os.path.basename(f)[:3].upper()
    out.append("\n## %s %s\n" % (i, props[i]["title"]))
    src = open(f).read()
    fs = list(re.finditer(r"((?:^//[^\n]*\n)*)^func (\w+)\([^\n]*\{\n(.*?)^\}", src, re.M | re.S))
    for m in fs:
        doc, name, body = m.groups()
        if not name.startswith(i + "_"): continue
        doc = re.sub(r"\s+", " ", doc.replace("//", "")).strip()
        bs = ["%s: %s / %s" % b for b in re.findall(r'sym\.Bound\("([^"]*)", (\w+), (\w+)\)', body)]
        out.append("- `%s` %s%s" % (name, doc or "-", (" [" + "; ".join(bs) + "]") if bs else ""))
open(root + "/HARNESSES.md", "w").write("\n".join(out) + "\n")
