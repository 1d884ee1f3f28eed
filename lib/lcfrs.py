"""Encoding of productions and grammars, shared by the grammar checks."""
import re
import trees as T


def encprod(rule):
	r, yf = rule
	if len(r) == 2 and r[1] == 'Epsilon':
		return dict(r=list(r), yf=[], w=yf[0])
	return dict(r=list(r), yf=[list(a) for a in yf], w='')


def decprod(p):
	if len(p['r']) == 2 and p['r'][1] == 'Epsilon':
		return (tuple(p['r']), (p['w'], ))
	return (tuple(p['r']), tuple(tuple(a) for a in p['yf']))


def binarized(t):
	"""Right-factored binarization of an encoded tree."""
	if t['i'] >= 0:
		return t
	kids = [binarized(c) for c in t['k']]
	if len(kids) > 2:
		rest = kids[1:]
		while len(rest) > 1:
			rest = rest[:-2] + [T.node(t['l'] + '|<>', rest[-2:])]
		kids = [kids[0], rest[0]]
	return T.node(t['l'], kids)


def markfanout(t):
	"""Make labels unique to a fan-out."""
	if t['i'] >= 0:
		return t
	n = T.fanout(T.leaves(t))
	return T.node(t['l'] + ('_%d' % n if n > 1 else ''),
			[markfanout(c) for c in t['k']])


RULERE = re.compile(r'^([0-9.]+) (\S+) => (\S+)(?: (\S+))?\s+([01,]+)\s+'
		r'([-+.e0-9]+)/([-+.e0-9]+) \[([0-9]+)\]$')
LEXRE = re.compile(r'^([0-9.]+) (\S+) => (\S+)\s+([-+.e0-9]+)/([-+.e0-9]+)$')


def grammarrules(g):
	"""List the rules of a Grammar object, from its text representation."""
	rules, rest = str(g)[len('rules:\n'):].split('\nlexicon:\n')
	lexicon, _labels = rest.split('\nlabels:\n')
	res = []
	for line in rules.splitlines():
		p, lhs, r1, r2, yf, w, m, no = RULERE.match(line).groups()
		res.append(dict(p=dict(r=[lhs, r1] + ([r2] if r2 else []),
				yf=[[int(b) for b in a] for a in yf.split(',')], w=''),
				prob=round(float(p) * 10000), w=num(w), mass=num(m),
				no=int(no)))
	for line in lexicon.splitlines():
		p, lhs, w, f, m = LEXRE.match(line).groups()
		res.append(dict(p=dict(r=[lhs, 'Epsilon'], yf=[], w=w),
				prob=round(float(p) * 10000), w=num(f), mass=num(m), no=-1))
	return res


def num(a):
	x = float(a)
	return int(x) if x == int(x) else repr(x)


UNESC = {'#LRB#': '(', '#RRB#': ')'}


def frac6(w, g, p):
	"""Frequencies are shown with 6 digits; give the exact one when it
	agrees with what is shown."""
	for a in g:
		b = dict(a['p'], w=UNESC.get(a['p']['w'], a['p']['w']))
		if b == p and float('%g' % float.fromhex(a['w'])) == float(w):
			return a['w']
	return repr(w)
