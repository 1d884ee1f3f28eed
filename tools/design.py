#!/usr/bin/env python3
"""Regenerate the generated tables at the end of DESIGN.md (by hand, during
development): planted bugs with the checks that catch them, and repairs."""
import collections
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/design.py; do not edit below -->\n'


def main():
	path = os.path.join(HERE, 'DESIGN.md')
	text = open(path).read().split(MARK)[0]
	out = [MARK, '\n## Planted bugs\n\nEach is caught by the check named, with '
			'the quick command (`tools/trybugs.sh`).\n\n'
			'| bug | caught by | needs |\n|---|---|---|\n']
	base = os.path.join(HERE, 'seeded')
	for name in sorted(os.listdir(base)):
		meta = json.load(open(os.path.join(base, name, 'meta.json')))
		out.append('| %s | %s | %s |\n' % (name, meta['property'],
				' '.join(meta['needs'].split()).replace('|', '/')))
	out.append('\n## Genuine defects repaired\n\nAll violations found on the '
			'original tree were small enough to repair; `known_findings.jsonl` '
			'records each commit.  There are no open known findings.\n\n')
	byprop = collections.OrderedDict()
	for line in open(os.path.join(HERE, 'known_findings.jsonl')):
		rec = json.loads(line)
		byprop.setdefault(rec['property'], []).append(rec)
	for prop in sorted(byprop):
		out.append('- **%s** (%d): %s\n' % (prop, len(byprop[prop]), '; '.join(
				'%s (%s)' % (a['what'], a['commit']) for a in byprop[prop])))
	with open(path, 'w') as out_:
		out_.write(text.rstrip('\n') + '\n\n' + ''.join(out))


if __name__ == '__main__':
	main()
