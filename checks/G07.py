"""Tree-adjoining grammars: in the model, composing small elementary trees by
substitution and adjunction derives exactly the trees of the context-free
reduction; the rules of the real code are evaluated in the same way, and
elementary trees are split and composed again."""
import collections
import contextlib
import io
import logging
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit', 'containers', '_fragments']
SPEC = 'TagTrace'
MODELS = [('TagMC', 'TagMC.cfg')]
MODELS_THOROUGH = [('TagMC', 'TagMCBig.cfg')]
ASSUMPTIONS = ['continuous, binarized trees', 'labels of constituents and of '
		'preterminals are different', 'elementary trees have one foot at most',
		'with shared addresses (packed), weights are not compared']
LABS = ['S', 'X', 'NP']
TAGS = ['N', 'V']
WORDS = ['a', 'b', 'the', '.', 'x-y', '1', "'s", '(']


def build(rng, lab, depth, words, popen, tags=TAGS):
	"""Random binary tree; words are appended to the given list."""
	def pre(a, w):
		words.append(w)
		return T.node(a, [T.term(len(words) - 1)])
	kids = []
	for _ in range(rng.choice([1, 2, 2, 2])):
		p = rng.random()
		if p < popen:
			kids.append(pre(rng.choice(LABS + tags), 'None'))
		elif depth <= 1 or p < 0.6:
			kids.append(pre(rng.choice(tags), rng.choice(WORDS)))
		else:
			kids.append(build(rng, rng.choice(LABS), depth - 1, words, popen))
	return T.node(lab, kids)


def initial(rng):
	words = []
	if rng.random() < 0.15:
		return dict(t=T.node(rng.choice(TAGS), [T.term(0)]),
				s=[rng.choice(WORDS)])
	t = build(rng, rng.choice(LABS), rng.choice([1, 2, 2, 3]), words,
			rng.choice([0, 0.2, 0.4]))
	return dict(t=t, s=words)


def auxiliary(rng):
	"""A spine with other nodes beside it."""
	words = []
	lab = rng.choice(LABS)

	def spine(depth, top):
		if depth == 0:
			words.append('*')
			return T.node(lab, [T.term(len(words) - 1)])
		me = lab if top else rng.choice(LABS)
		side = rng.choice(['l', 'r', 'r', '']) if depth > 1 else (
				rng.choice('lr'))
		kids = []
		for a in ('lsr' if side else 's'):
			if a == 's':
				kids.append(spine(depth - 1, False))
			elif a == side:
				p = rng.random()
				if p < 0.25:
					words.append('None')
					kids.append(T.node(rng.choice(LABS + TAGS),
							[T.term(len(words) - 1)]))
				elif p < 0.6:
					words.append(rng.choice(WORDS))
					kids.append(T.node(rng.choice(TAGS),
							[T.term(len(words) - 1)]))
				else:
					kids.append(build(rng, rng.choice(LABS), 1, words, 0.2))
		return T.node(me, kids)
	t = spine(rng.choice([1, 1, 2, 3]), True)
	return dict(t=t, s=words)


def some(rng, fun, n):
	res, seen = [], set()
	for _ in range(n):
		x = fun(rng)
		if fragstr(x) not in seen:
			seen.add(fragstr(x))
			res.append(dict(x, w=rng.randint(1, 4)))
	return res


def extra(rng):
	"""Additional lexical rules."""
	return [] if rng.random() < 0.7 else [dict(lab=a, word=b,
			w=rng.randint(1, 4)) for a in TAGS for b in ('a', '(', 'new')
			if rng.random() < 0.4]


def extrarules(inp):
	from discodop.tree import escape
	return {((a['lab'], 'Epsilon'), (escape(a['word']), )): number(
			a['w'], inp['div']) for a in inp['extra']} or None


def reduction(rng):
	init = some(rng, initial, rng.randint(1, 4))
	aux = some(rng, auxiliary, rng.randint(0, 3))
	if rng.random() < 0.5:  # to derive all open sites
		for lab in TAGS:
			w = rng.choice(WORDS)
			x = dict(t=T.node(lab, [T.term(0)]), s=[w], w=1)
			if all(fragstr(a) != fragstr(x) for a in init):
				init.append(x)
	div = rng.choice([1, 1, 1, 2])
	return dict(op='reduce', init=init, aux=aux, packed=rng.random() < 0.3,
			div=div, extra=extra(rng), n=6 if div == 2 else rng.randint(7, 9))


def chain(rng):
	"""Auxiliary trees adjoined inside each other, in any order."""
	def pre(a, n):
		return T.node(a, [T.term(n)])
	labs = rng.choice([['X', 'Y'], ['X', 'Y'], ['X', 'Y', 'Z']])
	init = [dict(t=T.node('X', [pre('N', 0)]), s=['a'], w=rng.randint(1, 3))]
	aux = []
	for n in rng.sample(range(len(labs)), len(labs)):
		lab, other = labs[n], labs[(n + 1) % len(labs)]
		if n + 1 == len(labs) or rng.random() < 0.3:
			side, word = (lambda m: pre('V', m)), 'b%d' % n
		else:
			side, word = (lambda m: T.node(other, [pre('N', m)])), 'c%d' % n
		if rng.random() < 0.5:
			t, s = T.node(lab, [pre(lab, 0), side(1)]), ['*', word]
		else:
			t, s = T.node(lab, [side(0), pre(lab, 1)]), [word, '*']
		aux.append(dict(t=t, s=s, w=rng.randint(1, 3)))
	return dict(op='reduce', init=init, aux=aux, packed=rng.random() < 0.3,
			div=1, extra=[], n=11)


def elementary(rng, popen=None, depth=None, words=None):
	words = [] if words is None else words
	global LABS
	keep = LABS
	LABS = ['X', 'S'] if rng.random() < 0.7 else keep
	try:
		t = build(rng, rng.choice(LABS), depth or rng.choice([2, 3, 4, 5]),
				words, rng.choice([0, 0.2, 0.2, 1 if rng.random() < 0.1
				else 0.3]) if popen is None else popen)
	finally:
		LABS = keep
	return dict(t=t, s=words)


def induction(rng):
	return dict(op='induce', elems=some(rng, elementary, rng.randint(1, 4)))


def nested(rng, n, words):
	"""A binary tree with few labels."""
	if n == 1:
		words.append('')
		t = T.node(rng.choice(TAGS), [T.term(len(words) - 1)])
		return T.node('X', [t]) if rng.random() < 0.3 else t
	m = rng.randint(1, n - 1)
	return T.node('X' if rng.random() < 0.8 else 'S', [
			nested(rng, m, words), nested(rng, n - m, words)])


def double(rng):
	bank = []
	for _ in range(rng.randint(1, 3)):
		words = []
		t = nested(rng, rng.randint(2, 6), words)
		bank.append(dict(t=t, s=[rng.choice(WORDS[:rng.choice([1, 2, 4])])
				for _ in words]))
	for _ in range(rng.choice([0, 1, 1, 2])):  # the same tree, with another word
		b = rng.choice(bank)
		bank.append(dict(b, s=[w if rng.random() < 0.9 else 'c'
				for w in b['s']]))
	return dict(op='double', bank=bank, maxnodes=rng.choice([10, 14, 10, 7]),
			packed=rng.random() < 0.3, div=1, n=rng.randint(5, 7),
			extra=extra(rng),
			wordlike=[w for w in WORDS + ['c'] if re.fullmatch(r'\w+', w)])


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(700, 7000)):
		p = rng.random()
		if p < 0.05:
			yield chain(rng)
		elif p < 0.45:
			yield reduction(rng)
		elif p < 0.8:
			yield induction(rng)
		else:
			yield double(rng)


def nontrivial(inp, out):
	if inp['op'] == 'reduce':
		return bool(inp['aux'])
	return bool(out and out.get('aux'))


def fragstr(f):
	def walk(a):
		if a['i'] >= 0:
			w = f['s'][a['i']]
			return '%d=%s' % (a['i'], '' if w == 'None' else w.replace(
					'(', '#LRB#'))
		return '(%s %s)' % (a['l'], ' '.join(walk(c) for c in a['k']))
	return walk(f['t'])


def parsefrag(text, w):
	"""Tree and words of a fragment; 0= and 0:0 are open sites."""
	toks = re.findall(r'\(|\)|[^\s()]+', text)
	sent = {}
	pos = 0

	def walk():
		nonlocal pos
		assert toks[pos] == '(', text
		lab = toks[pos + 1]
		pos += 2
		kids = []
		while toks[pos] != ')':
			if toks[pos] == '(':
				kids.append(walk())
				continue
			m = re.fullmatch(r'([0-9]+)(?:=(.*)|:[0-9]+)', toks[pos])
			sent[int(m.group(1))] = (m.group(2) or 'None').replace(
					'#LRB#', '(')
			kids.append(T.term(int(m.group(1))))
			pos += 1
		pos += 1
		return T.node(lab, kids)
	t = walk()
	assert pos == len(toks), text
	return dict(t=t, s=[sent.get(n, 'gap') for n in range(
			max(sent) + 1)], w=w)


def parserules(rules, lexicon, div):
	"""Rules as records; labels: text before the first address."""
	res, junk = [], []

	def strip(a):
		return re.split(r'[@\[]', a)[0]

	def weight(a):
		w = float(a) * div
		if w != int(w):
			junk.append(a)
		return int(w)
	for line in rules.splitlines():
		f = line.split('\t')
		lhs, rhs, yf, w = f[0], f[1:-2], f[-2], f[-1]
		if yf != ''.join(map(str, range(len(rhs)))):
			junk.append(line)
		res.append(dict(l=lhs, r=rhs, w=weight(w), lab=strip(lhs), word='',
				adj=len(rhs) == 1 and '[' in rhs[0] and '[' not in lhs))
	for line in lexicon.splitlines():
		word, rest = line.split('\t', 1)
		for a in rest.split('\t'):
			lhs, w = a.split(' ')
			res.append(dict(l=lhs, r=[], w=weight(w), lab=strip(lhs),
					word=word, adj=False))
	return dict(rules=res, junk=junk)


def number(w, div):
	return w / div if div > 1 else w


def execute(inp):
	logging.disable(logging.CRITICAL)
	from discodop import grammar
	with contextlib.redirect_stdout(io.StringIO()):
		if inp['op'] == 'reduce':
			init = collections.OrderedDict((fragstr(a), number(a['w'],
					inp['div'])) for a in inp['init'])
			aux = collections.OrderedDict((fragstr(a), number(a['w'],
					inp['div'])) for a in inp['aux'])
			rules, lex = grammar.ostagreduction(init, aux,
					packedgraph=inp['packed'], extrarules=extrarules(inp))
			return parserules(rules, lex, inp['div'])
		elif inp['op'] == 'induce':
			init, aux = grammar.inducetagfromtsg([(fragstr(a), a['w'])
					for a in inp['elems']])
			return dict(init=[parsefrag(a, w) for a, w in init.items()],
					aux=[parsefrag(a, w) for a, w in aux.items()])
		from discodop.fragments import recurringfragments
		from discodop.tree import ParentedTree
		trees = [T.dec(a['t'], ParentedTree) for a in inp['bank']]
		sents = [a['s'] for a in inp['bank']]
		frags = recurringfragments([a.copy(True) for a in trees], sents, 1,
				disc=True, indices=False, maxdepth=0)
		rules, lex, init, aux = grammar.doubleostagfromtsg(
				[a.copy(True) for a in trees], sents, numproc=1,
				packedgraph=inp['packed'], extrarules=extrarules(inp),
				**dict(maxnodes=inp['maxnodes'])
				if inp['maxnodes'] != 10 else {})
		return dict(parserules(rules, lex, 1),
				frags=[parsefrag(a, int(w)) for a, w in frags.items()],
				init=[parsefrag(a, int(w)) for a, w in init.items()],
				aux=[parsefrag(a, int(w)) for a, w in aux.items()])
