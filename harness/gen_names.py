#!/usr/bin/env python3
"""Writes swz_names.inc: every swizzle name the documentation promises for vectors of size 1..4, as X-macro lists."""
import itertools, os, sys
L = "xyzw"
out = ["// generated by gen_names.py: X(name, count, i0, i1, ...)"]
for size in (1, 2, 3, 4):
    for count in (1, 2, 3, 4):
        ent = []
        for c in itertools.product(range(size), repeat=count):
            ent.append("X(%s, %d, %s)" % ("".join(L[i] for i in c), count, ", ".join(map(str, c))))
        out.append("#define SWZ_%d_%d(X) \\\n\t%s" % (size, count, " \\\n\t".join(ent)))
    out.append("#define SWZ_%d(X) SWZ_%d_1(X) SWZ_%d_2(X) SWZ_%d_3(X) SWZ_%d_4(X)" % ((size,) * 5))
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "swz_names.inc")
text = "\n".join(out) + "\n"
if "--check" in sys.argv:
    sys.exit(0 if open(path).read() == text else 1)
open(path, "w").write(text)
