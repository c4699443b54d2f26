"""Append a 'fixed:' entry:  python3 tools/fixed.py S06 <commit> <what failed>"""
import json
import sys
p = __file__.rsplit('/', 2)[0] + '/known_findings.json'
d = json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d, open(p, 'w'), indent=1)
