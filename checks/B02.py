"""Labels of binarized trees against the specification of markovization
contexts, over all parameter settings the documentation supports."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import gens
MODULES = ['bit']
SPEC = 'MarkovTrace'
MODELS = [('BinarizationMC', 'BinarizationMC.cfg')]
MODELS_THOROUGH = [('BinarizationMC', 'BinarizationMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesSmall.cfg', 'trees')]
ASSUMPTIONS = ['combinations the code documents as unsupported are left out: '
		'left factoring with heads; contexts (but not marks of direction or '
		'head) after the change of direction at the head']


def supported(t, p):
	if not (p['ho'] or p['markhead']):
		return True
	if p['factor'] == 'left':
		return False
	if p['ho']:
		# labels after the switch at the head are documented as unreliable,
		# but the direction and head are still marked.
		if p['h'] == 0 and p['revh'] == 0 and not p['dot']:
			return True
		for n in T.nodes(t):
			if n['hd'] >= 0 and len(n['k']) > 2 and (
					n['hd'] < len(n['k']) - 1):
				return False
	return True


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		for _ in range(2 if not ctx.thorough else 12):
			p = gens.binparams(rng)
			t = gens.withheads(rng, a['t'], 0.8, 99 if p['ho'] and (
					p['h'] or p['revh'] or p['dot']) else None)
			if supported(t, p):
				yield dict(op='bin', t=t, p=p)
	for _ in range(ctx.n(2500, 25000)):
		t = T.rtree(rng, rng.randint(1, 9), ['A', 'B', 'C-X', 'D'],
				punary=rng.choice([0, 0.2]), pflat=rng.choice([0.1, 0.6]),
				maxarity=8)
		p = gens.binparams(rng)
		if rng.random() < 0.5:
			p['factor'] = 'right'
		if p['ho'] and rng.random() < 0.5:
			p.update(factor='right', h=0, revh=0, dot=False,
					dir=rng.random() < 0.8)
		t = gens.withheads(rng, t, 0.8, 99 if p['ho'] and (
					p['h'] or p['revh'] or p['dot']) else None)
		if supported(t, p):
			op = rng.choice(['bin'] * 12 + ['ids'] * 2 + ['tree'] * 3)
			rr = []
			if op == 'tree':
				p.update(artpa=True, thr=2, dir=p['ho'] and p['dir'])
				rr = rng.choice([[], [], [['A', 'D'], 'B'], [[], 'C-X']])
			yield dict(op=op, t=t, p=p, rr=rr)


	for _ in range(ctx.n(500, 5000)):
		labs = [rng.choice([dict(b='', l=rng.choice('ABC'), pre='', sib=[],
				anc=[], tail=''), dict(b=rng.choice(['A', 'B-X']), l='',
				pre=rng.choice(['', '', 'H;', 'l:X;', 'A,B;']),
				sib=[rng.choice('XYZ') for _ in range(rng.randint(0, 3))],
				anc=[rng.choice('PQ') for _ in range(rng.choice([0, 0, 1, 2, 3]))],
				tail=rng.choice(['', '', '', '$', '_2']))])
				for _ in range(rng.randint(1, 12))]
		yield dict(op='threshold', labs=labs, n=rng.randint(0, 4),
				h=rng.randint(0, 3), v=rng.randint(1, 3))
	for _ in range(ctx.n(800, 8000)):
		k = rng.randint(1, 6)
		length = rng.randint(k, k + 6)
		ys = [[a] for a in rng.sample(range(length), k)]
		for a in sorted(set(range(length)) - {y[0] for y in ys}):
			if rng.random() < 0.7:
				rng.choice(ys).append(a)
		t = T.node('S', [T.node(rng.choice('ABC'), [T.term(a)
				for a in sorted(y)]) for y in ys])
		yield dict(op='factor', t=t, factor=rng.choice(['left', 'right']),
				h=rng.choice([0, 1, 2, 3, 999]), fan=rng.random() < 0.5,
				thr=rng.choice([1, 2, 2]), filt=rng.choice([[], ['A'],
				['A', 'B']]))


def nontrivial(inp, out):
	return inp['op'] in ('threshold', 'factor') or any(len(n['k']) > 2 for n in T.nodes(inp['t']))


def execute(inp):
	from discodop.tree import Tree
	if inp['op'] == 'threshold':
		from discodop.treetransforms import markovthreshold
		trees = []
		for n, x in enumerate(inp['labs']):
			label = x['l'] if not x['b'] else '%s|<%s%s>%s%s' % (x['b'],
					x['pre'], ','.join(x['sib']),
					'^<%s>' % ','.join(x['anc']) if x['anc'] else '',
					x['tail'])
			node = Tree(label, [n])
			if n % 3 and trees:
				trees[-1].append(node)
			else:
				trees.append(Tree('ROOT', [node]))
		markovthreshold(trees, inp['n'], inp['h'], inp['v'])
		return dict(labels=[a.label for t in trees for a in t])
	if inp['op'] == 'factor':
		from discodop.treetransforms import (factorconstituent, addbitsets,
				unbinarize)
		res = factorconstituent(addbitsets(T.dec(inp['t'], Tree)),
				h=inp['h'], factor=inp['factor'], markfanout=inp['fan'],
				threshold=inp['thr'], filterlabels=tuple(inp['filt']))
		return dict(t=T.enc(res), bits=[[n for n in range(
				a.bitset.bit_length()) if a.bitset >> n & 1]
				for a in res.subtrees()],
				un=T.enc(unbinarize(Tree.convert(res))))
	tree = gens.dechd(inp['t'], Tree)
	if inp['op'] == 'tree':
		from types import SimpleNamespace
		from discodop.treetransforms import binarizetree
		from operator import attrgetter
		p = inp['p']
		return dict(bin=T.enc(binarizetree(tree, SimpleNamespace(
				method='default', factor=p['factor'], tailmarker=p['tail'],
				h=p['h'], v=p['v'], revh=p['revh'], leftmostunary=p['lmu'],
				rightmostunary=p['rmu'], markhead=p['markhead'],
				headrules='x' if p['ho'] else None,
				direction=p['dir'], dot=p['dot'],
				filterlabels=tuple(p['filt']),
				labelfun=(lambda n: n.label + "'") if p['lf']
					else attrgetter('label')),
				dict(ignorefunctions=tuple(inp['rr'][0]),
					adjunctionlabel=inp['rr'][1]) if inp['rr'] else None)))
	if inp['op'] == 'ids':
		from discodop.grammar import UniqueIDs
		return dict(bin=T.enc(gens.callbinarize(tree, inp['p'],
				ids=UniqueIDs())))
	return dict(bin=T.enc(gens.callbinarize(tree, inp['p'])))
