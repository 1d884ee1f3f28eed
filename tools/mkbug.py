"""Create seeded bugs from a definition file and confirm them.

usage: mkbug.py defs.py [id ...].  defs.py defines BUGS: list of dicts with
id, property, file, edits [(old, new)], demo (python source), needs, breaks.
A bug is kept only when it applies, builds, passes the stable tests, and its
demonstration passes without and fails with it.  (Not read by any check.)"""
import json
import os
import runpy
import shutil
import subprocess
import sys
R = '/repo'
S = '/verif/seeded'


def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def reset():
	sh('git -C /repo checkout -- .')
	sh('bash /opt/vp/build.sh')


def main():
	defs = runpy.run_path(sys.argv[1])['BUGS']
	want = sys.argv[2:]
	stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
	assert not sh('git -C /repo status --porcelain').stdout.strip()
	reset()
	for b in defs:
		if want and b['id'] not in want:
			continue
		d = '%s/%s' % (S, b['id'])
		os.makedirs(d, exist_ok=True)
		open(d + '/demo.py', 'w').write(b['demo'])
		open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the '
				'property holds for the demonstrated input\n'
				'here=$(cd "$(dirname "$0")" && pwd)\n'
				'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
				'exec /opt/venv/bin/python "$here/demo.py"\n')
		os.chmod(d + '/demo.sh', 0o755)
		json.dump(dict(property=b['property'], needs=b['needs'],
				what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
		ok = True
		r = sh('bash %s/demo.sh' % d, cwd=R)
		if r.returncode:
			print(b['id'], 'demo fails on clean tree', r.stderr[-400:], r.stdout[-300:])
			ok = False
		if ok:
			edits = b['edits']
			for e in edits:
				f = e[2] if len(e) > 2 else b['file']
				p = '%s/%s' % (R, f)
				t = open(p).read()
				if t.count(e[0]) != 1:
					print(b['id'], 'edit matches %d times: %r' % (t.count(e[0]), e[0]))
					ok = False
					break
				open(p, 'w').write(t.replace(e[0], e[1]))
		if ok:
			open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
			r = sh('bash /opt/vp/build.sh')
			if r.returncode:
				print(b['id'], 'does not build', r.stdout[-300:], r.stderr[-300:])
				ok = False
		if ok:
			sh('bash /opt/vp/test.sh /tmp/o_bug.json')
			passed = set(json.load(open('/tmp/o_bug.json'))['passed'])
			if stable - passed:
				print(b['id'], 'tests fail:', stable - passed)
				ok = False
		if ok:
			r = sh('timeout 250 bash %s/demo.sh' % d, cwd=R)
			if r.returncode == 0:
				print(b['id'], 'demo passes with the bug')
				ok = False
			else:
				print(b['id'], 'confirmed:', (r.stderr or r.stdout).strip().splitlines()[-1:])
		sh('git -C /repo checkout -- .')
		if not ok:
			shutil.rmtree(d)
	reset()


main()
