"""Regenerate MANIFEST.json from properties and checks."""
import importlib.util
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(a) for a in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
nafile = os.path.join(ROOT, 'tools', 'not_applicable.json')
if os.path.exists(nafile):
	NA = json.load(open(nafile))
checks, na = [], []
for p in props:
	pid = p['id']
	fn = os.path.join(ROOT, 'checks', pid + '.py')
	if os.path.exists(fn) and pid not in NA:
		src = open(fn).read()
		doc = src.split('"""')[1].strip().replace('\n', ' ')
		checks.append(dict(property=pid,
			quick_cmd='python3 lib/vf.py %s --tier quick' % pid,
			thorough_cmd='python3 lib/vf.py %s --tier thorough' % pid,
			evidence_file='evidence/%s.json' % pid,
			technique='TLA+ specification checked with TLC; behaviours '
			'enumerated by TLC replayed into the real code and recorded '
			'traces of the real code validated against the specification',
			level='model_checking', level_note=doc))
	else:
		na.append(dict(property=pid, reason=NA.get(pid,
			'check still under construction')))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks,
	not_applicable=na, notes='See DESIGN.md. No hooks in /repo are needed: '
	'the checks use the public API of a scratch build of the working tree.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
