"""Yields, fan-outs, gaps, canonical order, yield functions and fan-out
markers on all small discontinuous trees (TLC enumeration), and random trees
with up to 140 terminals."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import stubs
MODULES = ['bit']
SPEC = 'YieldTrace'
MODELS = [('DiscMC', 'DiscMC.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['labels of input trees do not end in _n']


def shuffled(rng, t):
	if t['i'] >= 0:
		return t
	k = [shuffled(rng, c) for c in t['k']]
	rng.shuffle(k)
	return dict(t, k=k)


def one(rng, t, n):
	cls = rng.choice(['Tree', 'ParentedTree'])
	op = rng.choice(['yield', 'yield', 'canon', 'mark', 'groups',
			'alpino', 'reorder'])
	if op in ('canon', 'yield', 'alpino', 'reorder') and rng.random() < 0.7:
		t = shuffled(rng, t)
	if op == 'groups':
		ns = [a for a in T.nodes(t) if len(a['k']) > 1 and all(
				T.fanout(T.leaves(c)) == 1 for c in a['k'])]
		if not ns:
			op = 'mark'
		else:
			k = list(rng.choice(ns)['k'])
			rng.shuffle(k)
			return dict(op=op, k=k, cls=cls)
	return dict(op=op, t=t, cls=cls)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield one(rng, a['t'], 0)
	for m in ctx.mine(range(3 ** 6)):
		a = [n for n in range(6) if m // 3 ** n % 3 == 1]
		b = [n for n in range(6) if m // 3 ** n % 3 == 2]
		off = rng.choice([0, 0, 0, 10, 57, 58, 59, 60, 61, 62, 63, 64, 127])
		if a and b:
			yield dict(op='yf', a=[n + off for n in a], b=[n + off for n in b])
		if a:
			yield dict(op='yf1', a=[n + off for n in a])
	for _ in range(ctx.n(2500, 25000)):
		n = rng.choice([rng.randint(1, 12), rng.randint(1, 12),
				rng.randint(13, 40)])
		if rng.random() < 0.05:
			n = rng.choice([63, 64, 65, 66, 127, 128, 129, 140])
		t = T.rtree(rng, n, ['A', 'B_X', 'NP-SBJ', 'D_1_x'],
				punary=rng.choice([0, 0.2]), pdisc=rng.choice([0.2, 0.8]))
		yield one(rng, t, n)


def execute(inp):
	stubs.install()
	from discodop import tree, treetransforms as tt
	if inp['op'] in ('yf', 'yf1'):
		return dict(yf=tt.getyf(tree.ImmutableTree('A', inp['a']),
				tree.ImmutableTree('B', inp['b']) if inp['op'] == 'yf' else None))
	cls = getattr(tree, inp['cls'])
	if inp['op'] == 'groups':
		k = [T.dec(c, cls) for c in inp['k']]
		return dict(cont=[[min(a.leaves()) for a in g]
				for g in tt.contsets(k)])
	t = T.dec(inp['t'], cls)
	if inp['op'] == 'canon':
		return dict(canon=T.enc(tt.canonicalize(t)))
	if inp['op'] == 'alpino':
		return dict(canon=T.enc(tt.canonicalizealpino(t)))
	if inp['op'] == 'reorder':
		sent = ['w%d' % n for n in range(max(t.leaves()) + 1)]
		res = tt.canonicallyorderedtree(t, sent)
		return dict(canon=T.enc(res), sent=sent, same=res is t)
	if inp['op'] == 'mark':
		a = tt.addfanoutmarkers(t)
		res = dict(mark=T.enc(a))
		res['twice'] = T.enc(tt.addfanoutmarkers(a))
		res['unmark'] = T.enc(tt.removefanoutmarkers(a))
		return res
	imm = tt.addbitsets(t)
	inodes = list(imm.subtrees())
	nodes = list(t.subtrees())

	def bits(x):
		return [n for n in range(x.bit_length()) if x >> n & 1]
	cont = [[[min(a.leaves()) for a in g] for g in tt.contsets(n)]
			if isinstance(n[0], tree.Tree) else [] for n in nodes]
	return dict(bits=[bits(n.bitset) for n in inodes],
			fan=[tt.fanout(n) for n in inodes],
			disc=[tree.isdisc(n) for n in nodes],
			discimm=[tree.isdisc(n) for n in inodes],
			leaves=[n.leaves() for n in nodes],
			immleaves=[list(n.leaves()) for n in inodes],
			cont=cont, cmplx=[[tt.complexity(n), list(tt.complexityfanout(n)),
				list(tt.fanoutcomplexity(n))] for n in inodes],
			tbfan=tt.treebankfanout([t])[0])
