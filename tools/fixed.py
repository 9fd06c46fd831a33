"""fixed.py SHA 'C01 C02' 'what failed': record a repaired defect"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
h = subprocess.run(['git', '-C', '/repo', 'rev-parse', sys.argv[1]], capture_output=True, text=True).stdout.strip()
for q in sys.argv[2].split():
    k.append(dict(property=q, status='fixed', commit=h, keys=[], what='fixed: property=%s %s %s' % (q, h[:7], sys.argv[3])))
json.dump(k, open(p, 'w'), indent=1)
