"""Authoring aid: record.py PROPERTY COMMIT TEXT adds a repaired defect to known_findings.json."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', sys.argv[2]], text=True).strip()
k.append({'property': sys.argv[1], 'status': 'fixed', 'commit': h, 'text': 'fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[3])})
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
