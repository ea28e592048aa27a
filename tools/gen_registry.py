#!/usr/bin/env python3
"""Write harness/h/registry.go: the table of harness entry points for native replay."""
import os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = []
for f in sorted(glob.glob(here + "/harness/h/*.go")):
    if f.endswith("registry.go"):
        continue
    names += re.findall(r"^func (C\d\d_\w+)\(\)", open(f).read(), re.M)
out = "// Code generated by tools/gen_registry.py. DO NOT EDIT.\n\npackage h\n\nvar Jobs = map[string]func(){\n"
names.sort()
w = max([len(n) for n in names] + [0])
for n in names:
    out += '\t"%s":%s %s,\n' % (n, " " * (w - len(n)), n)
out += "}\n"
p = here + "/harness/h/registry.go"
if not os.path.exists(p) or open(p).read() != out:
    open(p, "w").write(out)
print(len(names))
