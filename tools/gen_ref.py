#!/usr/bin/env python3-vt
"""Generates engine/ref_tab.inc: zeta(s) at integers, 36 digits (quad precision)."""
from mpmath import mp, zeta, nstr
mp.dps = 60
LO, HI = -460, 130
with open("engine/ref_tab.inc", "w") as f:
    f.write("// generated by tools/gen_ref.py: zeta(s), s = %d ... %d\n" % (LO, HI))
    f.write("static const int ZLO = %d, ZHI = %d;\nstatic const __float128 ZTAB[] = {\n" % (LO, HI))
    for s in range(LO, HI + 1):
        v = mp.mpf(0) if s == 1 or (s < 0 and s % 2 == 0) else zeta(s)
        f.write("   %sQ,\n" % (nstr(v, 40, min_fixed=1, max_fixed=0) if v else "0.0"))
    f.write("};\n")
