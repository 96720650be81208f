#!/usr/bin/env python3
# addfix.py PROP ID COMMIT WHAT : records a repaired defect in known/findings.json
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known', 'findings.json')
d = json.load(open(p))
prop, i, com, what = sys.argv[1:5]
d.append({'property': prop, 'id': i, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (prop, com, what)})
json.dump(d, open(p, 'w'), indent=1)
