#!/usr/bin/env python3
"""Writes a copy of Blitz++'s where() expression header (a system header, not part of /repo) in which the
element accessors call se::bz_select3(c,a,b) instead of the built-in conditional operator, so that a symbolic
condition yields an if-then-else term.  Usage: mkblitz.py OUTDIR"""
import re, os, sys
out = os.path.join(sys.argv[1], "blitz", "array"); os.makedirs(out, exist_ok=True)
s = open("/usr/include/blitz/array/where.h").read()
t, n = re.subn(r"return\s+([^;?]*?iter1[^;?]*?)\?([^;:]*?iter2[^;:]*?):([^;]*?iter3[^;]*?);",
  lambda m: "return se::bz_select3<T_numtype>(%s, %s, %s);" % tuple(x.strip() for x in m.groups()), s)
assert n == 7, n
open(os.path.join(out, "where.h"), "w").write(t)
