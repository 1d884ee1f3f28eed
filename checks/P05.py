"""Coarse-to-fine pruning: the whitelist made from a coarse chart consists of
what its criterion says; the chart of the fine grammar equals the closure
restricted to items whose coarse counterparts are on the whitelist."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'vfchart']
SPEC = 'ChartTrace'
MODELS = [('PruneMC', 'PruneMC.cfg')]
MODELS_THOROUGH = [('PruneMC', 'PruneMCBig.cfg')]
ASSUMPTIONS = ['rules have distinct productions; probabilities of the '
		'generated fine grammars are powers of two']
NEVER = ['', '@2$', '[|*]', '^B']


def refine(rng, g):
	"""A grammar with several variants of each label (except the start)."""
	variants = {a: [a] if a == g['start'] else [a] + [
			a + '@%d' % n for n in (1, 2) if rng.random() < 0.6]
			for a in g['fan']}
	if rng.random() < 0.3:  # as in Double-DOP: preterminals without variants
		for a in {b['l'] for b in g['lex']}:
			variants[a] = [a]
	new = dict(start=g['start'], bin=[], un=[], lex=[],
			fan={b: g['fan'][a] for a in variants for b in variants[a]})
	no = 0
	for a in variants:
		for b in variants[a]:
			rules = [('bin', x) for x in g['bin'] if x['l'] == a] + [
					('un', x) for x in g['un'] if x['l'] == a] + [
					('lex', x) for x in g['lex'] if x['l'] == a]
			keep = [x for x in rules if rng.random() < 0.8] or rules
			for (kind, x), w in zip(keep, C.weights(rng, len(keep))):
				y = dict(x, l=b, w=w)
				for key in ('r1', 'r2'):
					if key in x:
						y[key] = rng.choice(variants[x[key]])
				if 'no' in x:
					y['no'] = no
					no += 1
				new[kind].append(y)
	return new


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(1300, 10000)):
		split = rng.choice([1, 2]) if rng.random() < 0.3 else 0
		alg = 'lcfrs' if split else rng.choice(['cfg', 'lcfrs'])
		calg = 'cfg' if split else rng.choice(['cfg', 'lcfrs'])
		disc = split > 0 or (alg == calg == 'lcfrs' and rng.random() < 0.8)
		crit = rng.choice(['all', 'all', 'kbest', 'kbest', 'post'])
		long = alg == 'lcfrs' and n % 40 == 39
		cyc = 0.4 if crit == 'all' else 0
		while True:
			g = C.grammar(rng, disc=disc, cyc=cyc,
					mixed=rng.choice([0, 0.3, 0.6]), nl=rng.randint(1, 5),
					unary=rng.choice([0.1, 0.3, 0.5]), nwords=rng.randint(1, 3))
			maxlen = rng.choice([3, 5]) if long else rng.choice([2, 3, 4, 5, 6])
			sent = C.derive(rng, g, maxlen)
			if sent is not None:
				break
		if long:
			g, sent = C.lengthen(rng, g, sent, rng.choice([63, 64, 65, 70]))
		fine = refine(rng, g)
		never = rng.choice(NEVER)
		tags = None
		if not long and not split and rng.random() < 0.2:
			pos = sorted({a['l'] for a in g['lex']})
			tags = [rng.choice(pos) if rng.random() < 0.3 else None for _ in sent]
		require, block = [], []
		labels = sorted({re.sub('_.*', '', a) for a in g['fan'] if '|' not in a
				and (disc or '*' not in a)} - {'R'})
		labels = [a for a in labels if '*' not in a]
		if labels and not split and rng.random() < 0.3:
			for lst in (require if crit == 'kbest' and rng.random() < 0.7
					else block, block)[:rng.randint(1, 2)]:
				i = rng.randrange(len(sent))
				j = rng.randint(i + 1, len(sent))
				lst.append([rng.choice(labels), [[i, j]]])
		yield dict(kind='prune', calg=calg, cg=g, alg=alg, g=fine, start='R',
				mask=[], sent=C.toks(sent, tags), crit=crit, split=split,
				k=rng.choice([1, 1, 2, 3, 5, 20]) if crit == 'kbest' else
				rng.choice([1, 2, 3, 5, 8]), require=require, block=block,
				never=never, map=[[a, '' if never and re.search(never, a)
					else a.split('@')[0]] for a in sorted(fine['fan'])])


def splitgrammar(fine, sent, split):
	"""Extract a split-PCFG from derivations of a fine grammar."""
	from discodop.tree import Tree
	from discodop.containers import Grammar
	from discodop.grammar import treebankgrammar
	from discodop.treetransforms import splitdiscnodes, binarize, \
			addfanoutmarkers
	from discodop import plcfrs
	from discodop.kbest import lazykbest
	chart, _msg = plcfrs.parse(sent, C.compile(fine))
	if not chart:
		return None
	trees = []
	for deriv, _prob in lazykbest(chart, 3):
		tree = Tree(re.sub('@[0-9]+', '', deriv))
		for node in tree.subtrees():  # no cycles
			while len(node) == 1 and isinstance(node[0], Tree) \
					and node[0].label == node.label:
				node[:] = node[0][:]
		tree = splitdiscnodes(tree, markorigin=split == 2)
		binarize(tree, horzmarkov=2, tailmarker='', leftmostunary=True,
				childchar=':')
		addfanoutmarkers(tree)
		trees.append(tree)
	rules = treebankgrammar(trees, [sent] * len(trees))
	have = {a[0][0] for a, _w in rules}
	need = set()
	for a, f in fine['fan'].items():
		a = a.split('@')[0]
		need.update([a] if f == 1 else [a + '*'] if split == 1 else [
				'%s*%d' % (a, n) for n in range(f)])
	return Grammar(rules + [(((a, 'Epsilon'), ('zzzz', )), 1)
			for a in sorted(need - have)], start='R')


def execute(inp):
	from discodop import pcfg, plcfrs, vfchart
	from discodop.coarsetofine import prunechart, posteriorthreshold
	from discodop.kbest import lazykbest
	sent = [a['w'] for a in inp['sent']]
	tags = [a['tag'] or None for a in inp['sent']]
	tags = tags if any(tags) else None
	split, k, crit = inp['split'], inp['k'], inp['crit']
	out = dict(cok=False, coarse=[], root=['', []], white=[], derivs=[],
			kept=[], fine=dict(ok=False, items=[]))
	if split:
		coarse = splitgrammar(inp['g'], sent, split)
	else:
		coarse = C.compile(inp['cg'])
	fine = C.compile(inp['g'])
	if coarse is None:
		return out
	parse = (pcfg if inp['calg'] == 'cfg' else plcfrs).parse
	chart, _msg = parse(sent, coarse, tags=tags)
	if not chart:
		return out
	out['cok'] = True
	out['coarse'] = items(chart)
	out['root'] = ['R', [[0, len(sent)]]]
	if crit == 'kbest':
		chart1, _msg = parse(sent, coarse, tags=tags)
		for deriv, _w in lazykbest(chart1, k):
			out['derivs'].append(ditems(C.deriv(deriv)))
	elif crit == 'post':
		chart1, _msg = parse(sent, coarse, tags=tags)
		for a in posteriorthreshold(chart1, 0.5 ** k)[0]:
			a, b = vfchart.name(chart1, a)
			out['kept'].append([a, C.spans(b)])
	fine.getmapping(coarse, re.compile('@[0-9]+$'),
			re.compile(inp['never']) if inp['never'] else None,
			split > 0, split == 2)
	try:
		white, _msg = prunechart(chart, fine,
				dict(kbest=k, all=0, post=0.5 ** k)[crit], split > 0, split == 2,
				inp['alg'] == 'cfg',
				{(a, tuple(C.indices(b))) for a, b in inp['require']},
				{(a, tuple(C.indices(b))) for a, b in inp['block']})
	except ValueError as err:
		if inp['require'] and 'could not fulfill constraint' in str(err):
			return dict(out, cok=False)
		raise
	out['white'] = [[a, C.spans(b)] for a, b
			in vfchart.whitelisted(white, chart, inp['alg'] == 'cfg')]
	if inp['alg'] == 'cfg':
		chart, _msg = pcfg.parse(sent, fine, tags=tags, whitelist=white)
	else:
		chart, _msg = plcfrs.parse(sent, fine, tags=tags, whitelist=white,
				splitprune=split > 0, markorigin=split == 2)
	out['fine'] = dict(ok=bool(chart), items=items(chart))
	return out


def items(chart):
	"""Blocked tags of the LCFRS parser have no edges nor probability."""
	return [a for a in C.items(chart) if a['edges'] or a['w'] != -1]


def ditems(t):
	"""Items of a derivation."""
	res = {}

	def visit(node):
		if node['i'] != -1:
			return [node['i']]
		leaves = sorted(a for b in node['k'] for a in visit(b))
		res[node['l'], tuple(leaves)] = [node['l'], C.spans(leaves)]
		return leaves
	visit(t)
	return list(res.values())


def nontrivial(inp, out):
	return out.get('cok') and len(out['fine'].get('items', ())) > 3
