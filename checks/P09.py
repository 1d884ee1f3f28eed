"""Outside estimates: in the model, best-first search with estimates finds a
best derivation whatever the order of ties, and all that is part of complete
derivations; the real tables of estimates equal those of the specification, and
the charts of the real parser using them hold the same derivations as without.
"""
import contextlib
import io
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'estimates', 'vfchart']
SPEC = 'EstTrace'
MODELS = [('EstMC', 'EstMC.cfg')]
MODELS_THOROUGH = [('EstMC', 'EstMCBig.cfg')]
ASSUMPTIONS = ['rules have distinct productions; probabilities of the '
		'generated grammars are powers of two; no gold-standard tags']


def dense(rng, disc):
	"""A grammar with more rules per label than there are labels."""
	while True:
		g = C.grammar(rng, disc=disc, cyc=0, nl=rng.randint(1, 2), nt=1,
				unary=0.1, mixed=rng.choice([0, 0.6]))
		labs = [a for a in g['fan'] if a != 'R']
		have = {(a['l'], a['r1'], a['r2']) for a in g['bin']}
		add = [(x, y, z) for x in g['fan'] for y in labs for z in labs
				if g['fan'][x] == g['fan'][y] == g['fan'][z] == 1
				and x != 'p' and (x, y, z) not in have]
		if len(add) >= 2:
			break
	rng.shuffle(add)
	no = len(g['bin']) + len(g['un'])
	for x, y, z in add:
		n = sum(a['l'] == x for a in g['bin'] + g['un'] + g['lex'])
		for key in ('bin', 'un', 'lex'):  # half of the probability mass
			g[key] = [dict(a, w=a['w'] + (a['l'] == x)) for a in g[key]]
		g['bin'].append(dict(no=no, l=x, r1=y, r2=z, yf=[[0, 1]], w=1))
		if not n:
			g['bin'][-1]['w'] = 0
		no += 1
	return g


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(900, 6000)):
		est = rng.choice(['SX', 'LR', 'LR'])
		disc = est == 'LR' and rng.random() < 0.85
		cyc = rng.random() < 0.3
		big = n % 90 == 89
		while True:
			if not big and rng.random() < 0.15:
				g = dense(rng, disc)
			else:
				g = C.grammar(rng, disc=disc, cyc=0.6 if cyc else 0,
						mixed=rng.choice([0, 0.3, 0.6]),
						unary=rng.choice([0.1, 0.3, 0.5]))
			# gaps are required to be between parts of the same constituent
			if all(a['yf'][0][0] == 0 for a in g['bin']):
				break
		maxlen = rng.choice([1, 2, 3, 3, 4, 4, 5, 6] if est == 'SX'
				else [1, 2, 3, 3, 4, 4, 5])
		sent = C.derive(rng, g, maxlen)
		if sent is None or rng.random() < 0.1:
			sent = C.sentence(rng, g, rng.randint(1, maxlen))
		mx = maxlen if rng.random() < 0.7 else max(1, maxlen - 1)
		acyclic = not cyc
		root = 'R'
		if rng.random() < 0.1:
			root = rng.choice(sorted(a for a in g['fan'] if g['fan'][a] == 1))
		yield dict(est=est, g=g, sent=C.toks(sent), max=mx, root=root,
				k=rng.choice([1, 5, 20, 50]) if acyclic else 0)


def execute(inp):
	from discodop import plcfrs, estimates, vfchart
	from discodop.kbest import lazykbest
	import math
	g = inp['g']
	grammar = C.compile(g)
	sent = [a['w'] for a in inp['sent']]
	root = inp['root']
	with contextlib.redirect_stdout(io.StringIO()):
		if inp['est'] == 'SX':
			outside = estimates.getpcfgestimates(grammar, inp['max'], root)
		else:
			outside = estimates.getestimates(grammar, inp['max'], root)
	table = []
	for lab in sorted(g['fan']):
		a = outside[vfchart.labelid(grammar, lab)]
		for x in range(a.shape[0]):
			for y in range(a.shape[1]):
				for z in range(a.shape[2]):
					if a[x, y, z] < math.inf:
						table.append(dict(w=C.bits(a[x, y, z]),
								k=[lab, x, y] if inp['est'] == 'SX'
								else [lab, x, y, z]))
	est = ({'SX': 'SX', 'LR': 'SXlrgaps'}[inp['est']], outside)
	start = None if root == g['start'] else root
	chart, _msg = plcfrs.parse(sent, grammar, exhaustive=False, start=start,
			estimates=est)
	first = dict(ok=bool(chart), t='', w=-1)
	if chart:
		for a, b in lazykbest(chart, 1):
			first.update(t=C.deriv(a), w=C.bits(b))
	chart, _msg = plcfrs.parse(sent, grammar, exhaustive=True, start=start,
			estimates=est)
	return dict(table=table, first=first, ok=bool(chart),
			items=[a for a in C.items(chart)],
			derivs=[dict(t=C.deriv(a), w=C.bits(b))
				for a, b in lazykbest(chart, inp['k'])]
				if chart and inp['k'] else [])


def nontrivial(inp, out):
	return out.get('ok') and len(out.get('items', ())) > 3
