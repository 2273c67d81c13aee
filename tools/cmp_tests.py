"""cmp_tests.py OUT.json: list stable tests that did not pass."""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
miss = sorted(set(b['stable']) - set(o['passed']))
print(len(o['passed']), 'passed;', len(miss), 'stable not passing:', *miss[:15], sep='\n ')
sys.exit(bool(miss))
