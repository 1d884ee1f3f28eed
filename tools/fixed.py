#!/usr/bin/env python3
"""Append to known_findings.jsonl a "fixed" record for each fix: commit of
/repo (the property is looked up in PROPS by a word of the commit subject).
Used by hand during development; never by a check."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'e65468d'
FILE = os.path.join(HERE, 'known_findings.jsonl')


def main():
	assign = dict(line.split()[:2]
			for line in open(os.path.join(HERE, 'tools', 'fixed.txt'))
			if line.strip() and not line.startswith('#'))
	log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
			'--format=%h %s', BASE + '..HEAD'], capture_output=True,
			text=True, check=True).stdout
	known = []
	if os.path.exists(FILE):
		known = [json.loads(line) for line in open(FILE) if line.strip()]
		known = [a for a in known if a['status'] != 'fixed']
	for line in log.splitlines():
		commit, subject = line.split(' ', 1)
		if not subject.startswith('fix: '):
			continue
		what = subject[5:]
		if commit not in assign:
			print('no property for', line, file=sys.stderr)
			continue
		for prop in assign[commit].split(','):
			known.append(dict(property=prop, status='fixed', commit=commit,
					what=what,
					record='fixed: property=%s %s %s' % (prop, commit, what)))
	with open(FILE, 'w') as out:
		for a in known:
			out.write(json.dumps(a) + '\n')


main()
