"""fixed.py PROPERTY COMMIT TEXT: record a repaired defect.   claim.py-like: claim IDs with 'claim ID...'"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == 'claim':
    f = R + '/tools/claimed.json'; d = json.load(open(f))
    for i in sys.argv[2:]: d.setdefault(i, {})
    json.dump(dict(sorted(d.items())), open(f, 'w'), indent=0)
else:
    f = R + '/known_findings.json'; d = json.load(open(f))
    d.append(dict(property=sys.argv[1], status='fixed', commit=sys.argv[2], text=f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}'))
    json.dump(d, open(f, 'w'), indent=1)
