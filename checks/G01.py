"""Productions of a tree: in the model, the stack machine that runs the
productions of every small tree derives the tree again; the productions read
off by the real code are run by the same machine, and compared one by one."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
MODULES = ['bit']
SPEC = 'LcfrsTrace'
MODELS = [('LcfrsMC', 'LcfrsMC.cfg')]
MODELS_THOROUGH = [('LcfrsMC', 'LcfrsMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['constituents dominate either constituents or tokens']
WORDS = ['a', 'b', 'c', '(', ')', '#', 'é', '0']


def shuffled(rng, t):
	if t['i'] >= 0:
		return t
	k = [shuffled(rng, c) for c in t['k']]
	rng.shuffle(k)
	return T.node(t['l'], k)


def frontiers(rng, t, sent):
	"""Cut off some subtrees, leaving frontier nodes without words."""
	if t['i'] >= 0:
		return t
	if rng.random() < 0.15:
		for n in T.leaves(t):
			sent[n] = 'None'
		return T.node(t['l'], [T.term(n) for n in sorted(T.leaves(t))])
	return T.node(t['l'], [frontiers(rng, c, sent) for c in t['k']])


def damage(rng, t):
	"""Make the tree something that does not have productions."""
	n = len(T.leaves(t))
	kind = rng.choice(['dup', 'out', 'neg', 'empty'])
	pres = [a for a in T.nodes(t) if T.ispre(a)]
	a = rng.choice(pres)
	if kind == 'dup':
		t['k'].append(T.node('X', [T.term(rng.randrange(n))]))
	elif kind == 'out':
		a['k'][0]['i'] = n + rng.randrange(3)
	elif kind == 'neg':
		a['k'] = []
	else:
		t['k'].insert(rng.randrange(len(t['k']) + 1), T.node('X', []))
	return t


def one(rng, t):
	n = len(T.leaves(t))
	sent = [rng.choice(WORDS) for _ in range(n)]
	x = rng.random()
	if x < 0.08:
		return dict(op='bad', t=damage(rng, eval(repr(t))), sent=sent)
	if x < 0.2:
		t = shuffled(rng, t)
	cover = True
	if x > 0.8:
		t = frontiers(rng, t, sent)
		cover = 'None' not in sent
	elif x > 0.7:  # part of a larger sentence
		m = {a: b for a, b in zip(range(n), sorted(rng.sample(range(n + 4), n)))}
		t = eval(repr(t))

		def ren(d):
			if d['i'] >= 0:
				d['i'] = m[d['i']]
			for c in d['k']:
				ren(c)
		ren(t)
		sent = [rng.choice(WORDS) for _ in range(n + 4)]
		cover = False
	return dict(op='prod', t=t, sent=sent, cover=cover,
			frontiers=rng.random() < 0.5)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield one(rng, a['t'])
	for _ in range(ctx.n(2500, 25000)):
		n = rng.randint(1, rng.choice([4, 8, 16, 40, 70]))
		yield one(rng, T.rtree(rng, n, ['A', 'B', 'VP'],
				punary=rng.choice([0, 0.2, 0.5]),
				pdisc=rng.choice([0, 0.3, 0.8])))


def execute(inp):
	from discodop import tree, grammar
	t = T.dec(inp['t'], tree.Tree)
	sent = [None if a == 'None' else a for a in inp['sent']]
	prods = grammar.lcfrsproductions(t, sent, **(
			dict(frontiers=True) if inp.get('frontiers') else {}))
	return dict(prods=[L.encprod(a) if len(a[0]) > 1
			else dict(r=list(a[0]), yf=list(a[1]), w='') for a in prods],
			t=T.enc(t))
