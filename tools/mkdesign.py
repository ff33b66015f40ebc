#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md and the bounds above the harnesses."""
import glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
s = open(here + "/design_head.md").read()
mut = here + "/design_mutations.md"
s = s.replace("MUTATIONS\n", open(mut).read() if os.path.exists(mut) else "")
s += "\n## Bounds per harness\n"
for f in sorted(glob.glob(here + "/../harness/src/c[0-2][0-9].rs")):
    t = open(f).read()
    s += "\n**%s**\n\n" % os.path.basename(f)[:-3].upper()
    for m in re.finditer(r"((?:^// .*\n)*)^harness!\((\w+),", t, re.M):
        c = " ".join(l[3:] for l in m.group(1).strip().split("\n"))
        s += "* `%s`: %s\n" % (m.group(2), c)
open(here + "/../DESIGN.md", "w").write(s)
