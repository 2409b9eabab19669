"""Writes MANIFEST.json from the registered properties (run by hand)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from contracts import props
NA = []
checks = []
for p in sorted(props.PROPS):
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                   'technique': props.PROPS[p].technique, 'level': 'proof', 'level_note': props.PROPS[p].note})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy, mpmath" && /opt/venv/bin/python -c "import numpy, shapely, pyproj, rasterio, rasterstats"', 'checks': checks,
     'not_applicable': NA,
     'notes': 'No hooks in /repo. Every check reads /repo/src and /repo/scripts anew, generates the obligations from that source and '
              'discharges them; see DESIGN.md.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
