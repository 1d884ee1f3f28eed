"""All discontinuous trees up to 5 leaves enumerated by TLC and random larger
ones, with random parameters: binarized trees have the specified shape, and
unbinarizing restores the original."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import gens
MODULES = ['bit']
SPEC = 'BinTrace'
MODELS = [('BinarizationMC', 'BinarizationMC.cfg')]
MODELS_THOROUGH = [('BinarizationMC', 'BinarizationMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesSmall.cfg', 'trees')]
ASSUMPTIONS = ['labels do not contain the marker characters of the '
		'transformation', 'every constituent has either constituents or a '
		'single terminal as children, as the documentation requires']


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		for _ in range(2 if not ctx.thorough else 12):
			yield dict(op='bin', t=gens.withheads(rng, a['t']),
					p=gens.binparams(rng))
	for _ in range(ctx.n(1500, 15000)):
		t = T.rtree(rng, rng.randint(1, 9), ['A', 'B', 'C-X', 'D|', 'E^', 'F_2'],
				punary=rng.choice([0, 0.2]), pflat=rng.choice([0.1, 0.6]),
				maxarity=8)
		if rng.random() < 0.3:
			# nodes with the same label as their parent
			labs = rng.sample(['A', 'ROOT', 'N'], rng.choice([1, 1, 2]))
			for _ in range(rng.randint(0, 2)):
				t = dict(l='', i=-1, k=[t])
			t = T.relabel(t, lambda n: rng.choice(labs))
		if rng.random() < 0.8:
			yield dict(op='bin', t=gens.withheads(rng, t),
					p=gens.binparams(rng))
		else:
			# arbitrary artificial labels, collapsed unaries
			labs = ['A', 'A|<B>', 'B|<B,C>^<S>', 'A^<S>', 'A+B', 'A+B+C^<X>',
					'D|<>', 'A|B', 'A^B']
			yield dict(op='unbin', expand=rng.random() < 0.5,
					t=T.relabel(t, lambda n: n['l'] if T.ispre(n)
						else rng.choice(labs)))


def nontrivial(inp, out):
	return any(len(n['k']) > 2 for n in T.nodes(inp['t']))


def execute(inp):
	from discodop.tree import Tree, ParentedTree
	from discodop.treetransforms import unbinarize
	if inp['op'] == 'unbin':
		tree = T.dec(inp['t'], ParentedTree)
		return dict(unbin=T.enc(unbinarize(tree, expandunary=inp['expand'])))
	cls = ParentedTree if inp['p']['h'] % 2 else Tree
	tree = gens.dechd(inp['t'], cls)
	b = gens.callbinarize(tree, inp['p'])
	res = dict(bin=T.enc(b), same=b is tree)
	u = unbinarize(b, expandunary=False)
	return dict(res, unbin=T.enc(u), same=res['same'] and u is tree)
