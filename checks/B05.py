"""Unary collapsing and its inverse, and preterminal introduction, on all
trees with unary chains up to 3 leaves (TLC enumeration) and random ones."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'UnariesTrace'
MODELS = [('UnariesMC', 'UnariesMC.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['labels contain no "+", "|<" or "^<"']


def flatten(rng, t, p):
	"""Remove some preterminals, so that terminals have siblings."""
	if t['i'] >= 0:
		return t
	kids = []
	for c in t['k']:
		c = flatten(rng, c, p)
		if T.ispre(c) and rng.random() < p:
			c = c['k'][0]
		kids.append(c)
	return dict(t, k=kids)


def flatterm(rng, t, p):
	"""Replace some constituents by flat ones with only terminals."""
	if t['i'] >= 0:
		return t
	if rng.random() < p:
		return T.node(t['l'], [T.term(n) for n in sorted(T.leaves(t))])
	return dict(t, k=[flatterm(rng, c, p) for c in t['k']])


def inputs(ctx):
	rng = ctx.rng
	trees = list(ctx.mine(ctx.gen('trees')))
	for a in trees:
		for cls in ('Tree', 'ParentedTree'):
			if not ctx.thorough and rng.random() < 0.5:
				continue
			yield dict(op='collapse', t=a['t'], pos=rng.random() < 0.5,
					root=rng.random() < 0.5, cls=cls)
	for _ in range(ctx.n(2500, 25000)):
		n = rng.randint(1, 9)
		t = T.rtree(rng, n, ['A', 'B-X', 'C|', 'D'],
				punary=rng.choice([0.1, 0.5]))
		cls = rng.choice(['Tree', 'ParentedTree'])
		op = rng.choice(['collapse', 'intropre', 'intropreids', 'handledisc'])
		if op == 'collapse':
			yield dict(op=op, t=t, pos=rng.random() < 0.5,
					root=rng.random() < 0.5, cls=cls)
		elif op == 'handledisc':
			yield dict(op=op, t=flatterm(rng, t, 0.4), cls=cls)
		else:
			yield dict(op=op, t=flatten(rng, t, rng.choice([0.3, 0.9])),
					sent=[rng.choice(['', 'a', 'the', '/', 'a b'])
						for _ in range(n)], cls=cls)


def execute(inp):
	from discodop import tree
	from discodop.treetransforms import (collapseunary, unbinarize,
			introducepreterminals, handledisc)
	t = T.dec(inp['t'], getattr(tree, inp['cls']))
	if inp['op'] == 'collapse':
		c = collapseunary(t, collapsepos=inp['pos'], collapseroot=inp['root'])
		res = dict(col=T.enc(c))
		res['exp'] = T.enc(unbinarize(c))
		return res
	elif inp['op'] == 'handledisc':
		return dict(hd=T.enc(handledisc(t)))
	sent = [a or None for a in inp['sent']]
	if inp['op'] == 'intropreids':
		return dict(pre=T.enc(introducepreterminals(t, sent,
				ids=iter([str(n) for n in range(100)]))))
	return dict(pre=T.enc(introducepreterminals(t, sent)))
