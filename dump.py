#!/usr/bin/env python3
"""debugging aid: dump.py ENTRY_REGEX [-p PRESERVE]... FILE..."""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.dont_write_bytecode = True
import common, build
a = sys.argv[1:]
pres = []
fl = []
std = True
e = a.pop(0)
while a:
    x = a.pop(0)
    if x == '-p':
        pres.append(a.pop(0))
    else:
        fl.append(x if os.path.isabs(x) else (build.tu(x[4:]) if x.startswith('tus/') else build.lib(x)))
m = common.load(fl, [e], pres)
for f in m.functions:
    common.dump(f)
