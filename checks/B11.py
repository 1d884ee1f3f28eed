"""D-level: the real code's measure of syntactic complexity on random annotated
trees equals the highest level whose condition holds in the specification."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit', 'containers']
SPEC = 'DLevelTrace'
MODELS = [('DLevelMC', 'DLevelMC.cfg')]
MODELS_THOROUGH = [('DLevelMC', 'DLevelMCBig.cfg')]
ASSUMPTIONS = ['Alpino trees: function, morphology and lemma for every node']
LABELS = ['REL', 'CP', 'WHSUB', 'WHREL', 'TI', 'OTI', 'INF', 'NP', 'SMAIN',
		'PP', 'SSUB', 'REL^x', 'NP-y']
FUNCS = ['su', 'obj1', 'vc', 'mod', 'hd', 'obcomp', 'sup', 'crd', 'body',
		'su-x', 'det', '--']
MORPH = dict(ww=['WW(pv,tgw)', 'WW(vd,vrij)', 'WW(inf,vrij)', 'WW[pv.tgw]'],
		vg=['VG(neven)', 'VG(onder)', 'VG(onder)'],
		n=['N(soort,ev)', '--', 'N(pv)'])


def some(rng, a, keep):
	return rng.sample(a, rng.randint(1, min(keep, len(a)))) + [a[-2]]


def tree(rng):
	n = rng.randint(1, 8)
	t = T.canonical(T.rtree(rng, n, ['A'], pdisc=rng.choice([0, 0.3]),
			punary=rng.choice([0, 0.2])))
	labels, funcs = some(rng, LABELS, 4), some(rng, FUNCS, 5)
	if rng.random() < 0.4:  # complements with coindexed subjects
		labels += ['INF', 'TI']
		funcs = ['vc', 'su', 'hd', 'obj1'][:rng.randint(2, 4)] + ['vc']
		if rng.random() < 0.5:
			labels = ['INF', 'NP', 'TI']
	tags = rng.choice([['n', 'n', 'ww'], ['n', 'vg'], ['n'], ['n', 'ww', 'vg'],
			['ww', 'ww', 'vg', 'n'], ['ww', 'n', 'ww-x', 'vg^y']])
	morph = {a: rng.sample(b, rng.randint(1, len(b))) for a, b in MORPH.items()}
	lemmas = rng.choice([['dat', 'x'], ['dat'], ['x']])
	nodes = list(T.nodes(t))
	ids = {}
	for m, x in enumerate(nodes):
		pre = T.ispre(x)
		x['l'] = 'ROOT' if x is t else rng.choice(tags if pre else labels)
		x['f'] = '--' if x is t else rng.choice(funcs)
		x['m'] = rng.choice(morph[x['l'].split('-')[0].split('^')[0]]
				) if pre else '--'
		x['e'] = rng.choice(lemmas) if pre else '--'
		x['d'] = '' if pre else str(500 + m)
		if not pre:
			ids[x['d']] = x
	for x in nodes:
		x['s'] = [[rng.choice(['su', 'su', 'obj1']), rng.choice(sorted(ids))]
				for _ in range(rng.choice([0, 0, 1, 2]))]
	if rng.random() < 0.4:  # a sister of a complement
		for x in nodes:
			vc = [c for c in x['k'] if c['i'] < 0 and c['f'] == 'vc' and c['d']]
			if vc and len(x['k']) > 1:
				rng.choice(x['k'])['s'].append(['su', rng.choice(vc)['d']])
	return t


def inputs(ctx):
	for _ in range(ctx.n(6000, 60000)):
		yield dict(op='dlevel', t=tree(ctx.rng))


def nontrivial(inp, out):
	return out.get('lev') != 0


def dec(d, cls):
	if d['i'] >= 0:
		return d['i']
	x = cls(d['l'], [dec(c, cls) for c in d['k']])
	x.source = ['#' + d['d'] if d['d'] else 'w', d['e'], d['l'], d['m'],
			d['f'], '0'] + [a for b in d['s'] for a in b]
	return x


def execute(inp):
	from discodop.tree import ParentedTree
	from discodop.treebanktransforms import dlevel
	t = dec(inp['t'], ParentedTree)
	a = str(t), [list(x.source) for x in t.subtrees()]
	lev = dlevel(t)
	return dict(lev=lev,
			same=a == (str(t), [list(x.source) for x in t.subtrees()]))
