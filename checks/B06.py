"""Optimal binarization: the agenda search is model checked (minimal for all
arrangements of up to 4 children over 6 positions, any tie breaking), and the
results of the real code are compared with the minimum over all
binarizations, for arrangements of up to 7 discontinuous children and whole
trees."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'OptBinTrace'
MODELS = [('OptBinMC', 'OptBinMC.cfg')]
MODELS_THOROUGH = [('OptBinMC', 'OptBinMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['head-driven: the head is the child given as such (by '
		'optimalbinarize: the last child)', 'labels without marker symbols',
		'constituents that are continuous with continuous children are '
		'given in canonical order']


def arrangement(rng, n, length, pgap):
	"""Yields of n children over the given number of positions."""
	while True:
		pos = [rng.randrange(n) if rng.random() > pgap else None
				for _ in range(length)]
		ys = [[p for p, c in enumerate(pos) if c == a] for a in range(n)]
		if all(ys):
			return sorted(ys)


def constituent(rng, ys, shared=True):
	kids = []
	for n, y in enumerate(ys):
		lab = rng.choice('ABC') if shared else 'ABCDEFGH'[n]
		if rng.random() < 0.5:
			kids.append(T.node(lab, [T.term(p) for p in y]))
		else:
			kids.append(T.node(lab, [T.node('p', [T.term(p)]) for p in y]))
	return T.node('X', kids)


def opt(rng, t):
	hd = rng.random() < 0.4
	return dict(op='opt', t=t, hd=hd, cf=rng.random() < 0.7,
			sep=rng.choice(['|', '|', '@', '::']), by=rng.random() < 0.3, h=rng.choice([1, 2, 999]) if hd else 999,
			v=rng.choice([1, 1, 1, 2, 3]))


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield opt(rng, a['t'])
	for _ in range(ctx.n(3000, 30000)):
		n = rng.choice([3, 3, 4, 4, 5, 5, 6, 7])
		t = constituent(rng, arrangement(rng, n, rng.randint(n + 1,
				2 * n + 6), rng.choice([0, 0.1, 0.3])), rng.random() < 0.5)
		# children in any order, unless the constituent is continuous
		if rng.random() < 0.5 and any(T.fanout(T.leaves(c)) > 1
				for c in [t] + t['k']):
			rng.shuffle(t['k'])
		hd = rng.random() < 0.5
		yield dict(op='min', t=t, head=rng.randint(1, n) if hd else 0,
				cf=rng.random() < 0.7, sep=rng.choice(['|', '|', '@', '::']),
				h=rng.choice([1, 2, 3, 999])
				if hd else 999)
	for _ in range(ctx.n(600, 6000)):
		t = T.rtree(rng, rng.randint(3, 12), ['A', 'B', 'NP-SBJ'],
				punary=rng.choice([0, 0.2]), pdisc=rng.choice([0.3, 0.8]))
		yield opt(rng, t)


def nontrivial(inp, out):
	return any(T.fanout(T.leaves(n)) > 1 and len(n['k']) > 2
			for n in T.nodes(inp["t"]))


def execute(inp):
	from discodop import tree, treetransforms as tt
	from types import SimpleNamespace
	fun = tt.complexityfanout if inp['cf'] else tt.fanoutcomplexity
	if inp['op'] == 'min':
		t = tt.addbitsets(T.dec(inp['t'], tree.Tree))
		res = tt.minimalbinarization(t, fun, h=inp['h'], sep=inp['sep'],
				head=inp['head'] - 1 if inp['head'] else None)
	elif inp['by'] and inp['sep'] == '|' and inp['cf'] and (
			inp['hd'] or inp['v'] == 1):
		t = T.dec(inp['t'])
		res = tt.binarizetree(t, SimpleNamespace(method='optimalhead'
				if inp['hd'] else 'optimal', h=inp['h'], v=inp['v']), None)
		res = tt.addbitsets(res)
	else:
		t = T.dec(inp['t'])
		res = tt.optimalbinarize(t, headdriven=inp['hd'], fun=fun,
				h=inp['h'] if inp['hd'] else None, v=inp['v'],
				sep=inp['sep'])
	bits = [[n for n in range(a.bitset.bit_length()) if a.bitset >> n & 1]
			for a in res.subtrees()]
	enc = T.enc(res)
	return dict(t=enc, bits=bits, un=T.enc(tt.unbinarize(
			tree.Tree.convert(res), childchar=inp['sep'])))
