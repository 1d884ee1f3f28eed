"""Deletion of terminals and empty elements: all histories of deletions from
small trees in the model; the real functions on all subsets of the terminals
of enumerated trees (sampled) and random trees of up to 40 terminals."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'DropTrace'
MODELS = [('DropMC', 'DropMC.cfg')]
MODELS_THOROUGH = [('DropMC', 'DropMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['every terminal has a preterminal of its own']


def one(rng, t):
	n = len(T.leaves(t))
	op = rng.choice(['func', 'func', 'word', 'label', 'empty', 'empty'])
	sent = [rng.choice(['a', 'b', 'c', '0', '.']) for _ in range(n)]
	res = dict(op=op, sent=sent)
	if op == 'func':
		p = rng.choice([0.1, 0.3, 0.6, 0.9, 1])
		res.update(drop=[a for a in range(n) if rng.random() < p])
	elif op == 'word':
		res.update(words=rng.sample(['a', 'b', 'c', '.'], rng.randint(0, 3)))
	else:
		labs = ['N', 'V', '-NONE-', '.'] if rng.random() < 0.5 else ['N', 'V']
		t = T.relabel(t, lambda d: rng.choice(labs) if T.ispre(d)
				else rng.choice(['-NONE-', d['l'], d['l'], d['l']]))
		if op == 'label':
			res.update(words=rng.sample(['N', 'V', '.'], rng.randint(0, 2)))
		else:
			p = rng.choice([0, 0.2, 0.5, 1])
			res.update(sent=[rng.choice(['', 'None']) if rng.random() < p
					else w for w in sent])
	return dict(res, t=t)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield one(rng, a['t'])
	for _ in range(ctx.n(2500, 25000)):
		n = rng.randint(1, rng.choice([6, 10, 16, 40]))
		yield one(rng, T.rtree(rng, n, ['A', 'B', 'VP'],
				punary=rng.choice([0, 0.2, 0.5]),
				pdisc=rng.choice([0, 0.3, 0.8])))


def execute(inp):
	from discodop import tree, treetransforms as M
	sent = [None if a == 'None' else a for a in inp['sent']]
	t = T.dec(inp['t'])
	if inp['op'] == 'empty':
		M.removeemptynodes(t, sent)
	elif inp['op'] == 'func':
		drop = set(id(a) for a in t.subtrees() if isinstance(a[0], int)
				and a[0] in inp['drop'])

		def func(word, node):
			return id(node) in drop
		M.removeterminals(t, sent, func)
	elif inp['op'] == 'word':
		M.removeterminals(t, sent, lambda w, n: w in inp['words'])
	else:
		M.removeterminals(t, sent, lambda w, n: n.label in inp['words'])
	linked = all(c.parent is a for a in t.subtrees() for c in a
			if isinstance(c, tree.Tree)) and t.parent is None
	return dict(t=T.enc(t), sent=['None' if a is None else a for a in sent], linked=linked)
