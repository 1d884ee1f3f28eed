"""Punctuation strategies: model checked over sequences of strategies on all
small trees; the real functions are compared with the specification on
enumerated trees with random punctuation and on random larger trees, and the
classification tables exhaustively."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'PunctTrace'
MODELS = [('PunctMC', 'PunctMC.cfg')]
MODELS_THOROUGH = [('PunctMC', 'PunctMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['every terminal has a preterminal of its own, the root is not '
		'a preterminal']
METHODS = ['remove', 'removeall', 'move', 'moveall', 'prune', 'root', 'raise',
		'balance', 'lower', 'none']
PUNCT = ['"', '"', '.', ',', '(', ')', '``', "''", "'", "'", '[', ']', '-',
		'<<', '>>', '-LRB-', '-RRB-', ':', '...']
TAGS = ['PUNCT', 'PUNCT', '$,', '.', "''", 'N', 'X']
ALLTAGS = ['.', ',', ':', "'", "''", '`', '``', '"', '-LRB-', '-RRB-',
		'-LSB-', '-RSB-', '-LCB-', '-RCB-', '$,', '$.', '$[', '$(', 'let',
		'LET[]', 'SPEC[symb]', 'TW[hoofd,vrij]', 'PONCT', 'PUNCT', 'COMMA',
		'PAREN', 'N', 'NN', '', 'ROOT', 'punct', 'SYM', '$', '-']
ALLWORDS = ALLTAGS + list('.,():-";?/!*&`[]<>{}|=\\\'') + [
		'<<', '>>', '&bullet;', '..', '....', '.....', '......', '.......',
		'!!', '!!!', '!!!!', '??', '???', ',,', '--', '---', '----', '-----',
		'#LRB#', '#RRB#', 'a', 'the', "'s", '%', '+', '~', '1', '(a']


def withpunct(rng, t, p):
	"""Assign words and tags."""
	n = len(T.leaves(t))
	sent = [rng.choice(PUNCT) if rng.random() < p else rng.choice('abc')
			for _ in range(n)]
	if rng.random() < 0.15:
		for a in range(n):
			if rng.random() < 0.7:
				sent[a] = rng.choice(['"', '.', "''", '``'])

	def tag(d):
		if not T.ispre(d):
			return d['l']
		w = sent[d['k'][0]['i']]
		if w in 'abc':
			return 'N' if rng.random() < 0.95 else 'PUNCT'
		return rng.choice(TAGS)
	return T.relabel(t, tag), sent


def inputs(ctx):
	rng = ctx.rng
	for n, w in enumerate(ctx.mine(ALLWORDS)):
		yield dict(op='ispunct', pairs=[[w, x] for x in ALLTAGS])
	for _ in range(ctx.n(200, 2000)):
		yield dict(op='sent', sent=[rng.choice(['"', '.', "''", '``', 'a', ','])
				for _ in range(rng.randint(0, 6))])
	for a in ctx.mine(ctx.gen('trees')):
		t, sent = withpunct(rng, a['t'], rng.choice([0.4, 0.7]))
		yield dict(op='punct', t=t, sent=sent, method=rng.choice(METHODS[:-1]))
	for _ in range(ctx.n(2500, 25000)):
		n = rng.randint(1, rng.choice([6, 10, 16]))
		t = T.rtree(rng, n, ['A', 'B', 'VP'], punary=rng.choice([0, 0.2]),
				pdisc=rng.choice([0, 0.3, 0.8]))
		t, sent = withpunct(rng, t, rng.choice([0.2, 0.4, 0.7, 1.0]))
		if rng.random() < 0.5:
			# punctuation under the root
			ps = [c for c in pres(t) if sent[c['k'][0]['i']] in PUNCT
					and rng.random() < 0.8]
			if ps and len(ps) < n:
				t = without(t, ps)
				t = T.canonical(dict(t, k=t['k'] + ps))
		yield dict(op='punct', t=t, sent=sent, method=rng.choice(METHODS))


def pres(t):
	return [a for a in T.nodes(t) if T.ispre(a)]


def without(t, ps):
	if t['i'] >= 0:
		return t
	return dict(t, k=[without(c, ps) for c in t['k'] if not any(
			c is a for a in ps) and any(not any(p is a for a in ps)
			for p in (pres(c) or [0]))])


def execute(inp):
	from discodop import tree, punctuation as M

	def out(x):
		return x.replace('\xab', '<<').replace('\xbb', '>>')

	def to(x):
		return x.replace('<<', '\xab').replace('>>', '\xbb')
	if inp['op'] == 'ispunct':
		return dict(res=[bool(M.ispunct(to(w), tree.Tree(x, [0])))
				for w, x in inp['pairs']])
	sent = [to(a) for a in inp['sent']]
	if inp['op'] == 'sent':
		M.punctprune(None, sent)
		return dict(sent=[out(a) for a in sent])
	t = T.dec(inp['t'])
	m = inp['method']
	if m == 'raise':
		M.punctraise(t, sent)
	elif m == 'balance':
		M.balancedpunctraise(t, sent)
	elif m == 'lower':
		M.punctlower(t, sent)
	else:
		M.applypunct(None if m == 'none' else m, t, sent)
	linked = all(c.parent is a for a in t.subtrees() for c in a
			if isinstance(c, tree.Tree)) and t.parent is None
	return dict(t=T.enc(t), sent=[out(a) for a in sent], linked=linked)
