#!/usr/bin/env python3-vt
"""replay.py <file>: run a recorded failing input against /repo's current tree (exit 1 while it still fails)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from contracts import units, xcheck

v = json.load(open(sys.argv[1]))
if 'args' not in v:
    print('obligation %s of unit %s is not discharged; no failing input was found' % (v['key'], v['unit']))
    print(v.get('leaf', ''))
    sys.exit(2)
w = xcheck.Worker()
for a in v.get('before', ()):
    w.call(v['fn'], a)
c = xcheck.compare(units.UNITS[v['unit']], v['args'], w)
w.close()
print(*(['after %d earlier calls' % len(v['before'])] if v.get('before') else []), v['fn'], json.dumps(v['args']))
if c is not None and c[0] == 'diff':
    print('%s: got %s, expected %s' % c[1:])
    sys.exit(1)
print('agrees' if c is None else 'not comparable: %s' % c[1])
