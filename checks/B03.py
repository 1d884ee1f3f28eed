"""Splitting, merging and raising discontinuous nodes on all small
discontinuous trees (TLC enumeration) and random larger ones, with and
without component indices and head marks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import gens
MODULES = ['bit']
SPEC = 'DiscTrace'
MODELS = [('DiscMC', 'DiscMC.cfg')]
MODELS_THOROUGH = [('DiscMC', 'DiscMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['input labels do not end in * or *n']


def one(rng, t):
	cls = rng.choice(['Tree', 'ParentedTree'])
	if rng.random() < 0.4:
		return dict(op='raise', t=gens.withheads(rng, t, 2), cls=cls)
	hds = rng.random() < 0.5
	return dict(op='split', t=gens.withheads(rng, t, 2 if hds else 0),
			hds=hds, mark=rng.random() < 0.5, cls=cls)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		for _ in range(2 if ctx.thorough else 1):
			yield one(rng, a['t'])
	for _ in range(ctx.n(4000, 40000)):
		n = rng.randint(2, 12)
		labels = rng.choice([['A'], ['A', 'B-X', 'C|<D>'], [
				'%s%d' % (a, b) for a in 'ABC' for b in range(9)]])
		yield one(rng, T.rtree(rng, n, labels, pdisc=0.7,
				punary=rng.choice([0, 0.2])))


def nontrivial(inp, out):
	return any(T.fanout(T.leaves(n)) > 1 for n in T.nodes(inp['t']))


def enchd(t):
	from discodop.tree import HEAD
	if isinstance(t, int):
		return T.term(t)
	hd = [n for n, c in enumerate(t)
			if not isinstance(c, int) and c.type == HEAD]
	return dict(l=t.label, i=-1, hd=-1 if not hd else hd[0]
			if len(hd) == 1 else -2, k=[enchd(c) for c in t])


def execute(inp):
	from discodop import tree
	from discodop.tree import HEAD
	from discodop.treetransforms import (splitdiscnodes, mergediscnodes,
			raisediscnodes)
	t = gens.dechd(inp['t'], getattr(tree, inp['cls']))
	if inp['op'] == 'raise':
		return dict(raised=T.enc(raisediscnodes(t)))
	s = splitdiscnodes(t, markorigin=inp['mark'])
	res = dict(split=T.enc(s), heads=[[a.label, sorted(a.leaves())]
			for a in s.subtrees() if a is not s and a.type == HEAD])
	m = mergediscnodes(s)
	res['merged'] = T.enc(m)
	res['hd'] = enchd(m)
	return res
