#!/usr/bin/env python3
"""Writes harness/h/all_gen.go, the table of harnesses the native replayer uses."""
import re, os, glob
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "h")
names = []
for f in sorted(glob.glob(d + "/*.go")):
    names += re.findall(r"^func (C\d\d_\w+)\(\) \{", open(f).read(), re.M)
names.sort()
with open(d + "/all_gen.go", "w") as o:
    o.write("package h\n\n// All is written by tools/gen_registry.py.\nvar All = map[string]func(){\n")
    for n in names:
        o.write('\t"%s": %s,\n' % (n, n))
    o.write("}\n")
