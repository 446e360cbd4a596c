#!/usr/bin/env python3
"""Writes harness/h/calls.go: one call of every reader the API declares, from /repo's struct types."""
import re
R = "/repo/json/"
def fields(f, t):
    s = open(R + f).read()
    b = re.search(r"^type %s struct \{(.*?)^\}" % t, s, re.S | re.M).group(1)
    out = []
    for l in b.split("\n"):
        l = l.split("//")[0].strip()
        m = re.match(r"(\w+)\s+func\s*\((.*)$", l)
        if m:
            d, i = 1, 0
            r = m.group(2)
            while d:
                d += {"(": 1, ")": -1}.get(r[i], 0)
                i += 1
            out.append((m.group(1), r[:i-1].strip(), r[i:].strip()))
    return out
o = []
w = o.append
w("// Written by tools/gen_calls.py: calls of every reader the API declares.\npackage h\n\nimport (\n\t\"strings\"\n\n\tjson \"github.com/matehaxor03/holistic_json/json\"\n\n\t\"verifharness/sym\"\n)\n")
def emit(fn, recv, typ, f, skip, extra):
    fs = [x for x in fields(f, typ) if re.match(r"(Get|Is|Has|Values|Clone|Len|ToJSON)", x[0]) and x[0] not in skip]
    w("// %s calls one reader of %s, by number; there are %sReaders." % (fn, typ, typ))
    w("const readersOf%s = %d\n" % (typ, len(fs)))
    w("func %s(%s, i int%s) {\n\tswitch i {" % (fn, recv, extra))
    v = recv.split()[0]
    for n, (name, args, ret) in enumerate(fs):
        a = []
        for x in [y.strip() for y in args.split(",") if y.strip()]:
            t = x.split()[-1]
            a.append({"string": "s", "*string": "&s", "int": "n", "*strings.Builder": "&strings.Builder{}", "(*strings.Builder)": "&strings.Builder{}"}.get(t, None) or (_ for _ in ()).throw(Exception(name + args)))
        w("\tcase %d:\n\t\t%s.%s(%s)" % (n, v, name, ", ".join(a)))
    w("\t}\n\tsym.Reach(\"called\")\n}\n")
emit("readValue", "v *json.Value", "Value", "Value.go", (), ", s string, n int")
emit("readMap", "m *json.Map", "Map", "Map.go", (), ", s string, n int")
emit("readArray", "a *json.Array", "Array", "Array.go", (), ", s string, n int")
def nils(fn, recv, typ, f):
    fs = []
    for x in fields(f, typ):
        a = [y.strip() for y in x[1].split(",") if y.strip()]
        t = re.sub(r"^\w+\s+", "", a[-1]) if a else ""
        if re.match(r"(Set|Append)", x[0]) and t.startswith("*") and not x[0].endswith("AtIndex"):
            fs.append((x[0], len(a)))
    w("// %s calls one setter of %s with a nil pointer, by number." % (fn, typ))
    w("const nilsOf%s = %d\n" % (typ, len(fs)))
    w("func %s {\n\tswitch i {" % recv)
    for n, (name, c) in enumerate(fs):
        w("\tcase %d:\n\t\tc.%s(%snil)" % (n, name, "k, " if c == 2 else ""))
    w("\t}\n}\n")
nils("setNil", "setNil(c *json.Value, i int)", "Value", "Value.go")
nils("setNilIn", "setNilIn(c *json.Map, k string, i int)", "Map", "Map.go")
nils("appendNil", "appendNil(c *json.Array, i int)", "Array", "Array.go")
open("/verif/harness/h/calls.go", "w").write("\n".join(o))
