#!/usr/bin/env python3
"""development aid: run every loop-cut unit natively without its cut on the unchanged tree;
a unit marked uncut must explore some cases and fail none.  usage: natsanity.py [unit...]"""
import sys, os, re, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check as C
units = [u for u in C.load_units() if (u.cuts or u.recs) and (not sys.argv[1:] or u.name in sys.argv[1:])]
base = os.path.join(C.HERE, '.work'); os.makedirs(base, exist_ok=True)
with tempfile.TemporaryDirectory(dir=base) as work:
    b = C.Build(work); C.MANGLE = C.find_mangle(b); b.native_all(); areas = {}
    for u in units:
        prop = u.props[0]; C.PROP = prop
        defs = tuple(['-D' + d for d in u.defs] + ['-DPROP_' + prop, '-DTIER_QUICK'])
        try:
            k = (u.file, defs); areas[k] = areas.get(k) or C.Area(b, u.file, list(defs)); exe = areas[k].exe()
        except Exception as e:
            print(u.name, 'BUILD', str(e)[:300]); continue
        for c in range(u.cases) if u.cases else [None]:
            rc, o, e, dt = C.native(exe, u.name, c, seed=3, count=20000, timeout=10)
            print('%-24s %-4s uncut=%d rc=%s %.1fs %s' % (u.name, c, u.uncut, rc, dt, (o + e).replace('\n', ' | ')[:230]), flush=True)
