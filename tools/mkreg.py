#!/usr/bin/env python3
"""Writes harness/zzh/registry.go (harness table) and harness/bounds.json from
the harness sources: every H_* function with the comment line 'bound:' above it."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names, bounds = [], {}
for f in sorted(glob.glob(here + "/harness/zzh/*.go")):
    if f.endswith("registry.go"):
        continue
    src = open(f).read()
    for m in re.finditer(r"((?:^//[^\n]*\n)*)^func (H_C\d\d_\w+)\(\)", src, re.M):
        names.append(m.group(2))
        doc = " ".join(l[2:].strip() for l in m.group(1).splitlines())
        i = doc.find("bound:")
        bounds[m.group(2)] = doc[i + 6:].strip() if i >= 0 else doc
out = "package zzh\n\n// Code generated by tools/mkreg.py; DO NOT EDIT.\n\nvar Harnesses = map[string]func(){\n"
w = max([len(n) for n in names] + [0])
for n in sorted(names):
    out += '\t"%s":%s %s,\n' % (n, " " * (w - len(n)), n)
out += "}\n"
def put(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
put(here + "/harness/zzh/registry.go", out)
put(here + "/harness/bounds.json", json.dumps({"bounds": bounds}, indent=1, sort_keys=True) + "\n")
