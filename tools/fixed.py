"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
d = json.load(open(p))
line = 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])
if line not in d['fixed']:
    d['fixed'].append(line)
json.dump(d, open(p, 'w'), indent=1)
