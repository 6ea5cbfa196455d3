#!/usr/bin/env python3
"""usage: fixed.py PROPERTY COMMIT TEXT...  records a repaired defect in known_findings.json"""
import json, sys
k = json.load(open('/verif/known_findings.json'))
k['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
