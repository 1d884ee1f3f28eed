"""Disambiguation: the trees, values and fragments returned for each objective
are compared with those defined by the derivations; for grammars of fragments,
the derivations are found by tiling each tree with the fragments."""
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
import charts as C
import fragments as G
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'_fragments', 'disambiguation']
SPEC = dict(dd='DisambTrace', red='DisambRedTrace')
MODELS = [('DisambMC', 'DisambMC.cfg')]
MODELS_THOROUGH = [('DisambMC', 'DisambMCBig.cfg')]
ASSUMPTIONS = ['grammars have no cycles of unary rules; rule weights are '
		'powers of 1/2', 'sums are compared when the probabilities of '
		'derivations differ by less than a factor 2^36']
ADDR = re.compile('@[-0-9]+')


def acyclic(ts):
	un = {(a['l'], a['k'][0]['l']) for t in ts for a in T.nodes(t)
			if len(a['k']) == 1 and a['k'][0]['i'] < 0}
	while un:
		low = {b for _, b in un} - {a for a, _ in un}
		if not low:
			return False
		un = {(a, b) for a, b in un if b not in low}
	return True


def ddinput(rng):
	while True:
		labs = ['A', 'B', 'C'][:rng.randint(1, 3)]
		words = ['a', 'b', 'é', '{0}'][:rng.randint(1, 4)]
		pdisc = rng.choice([0, 0, 0.5])
		bank = []
		for _ in range(rng.randint(1, 4)):
			t = L.markfanout(T.rtree(rng, rng.randint(1, 6), labs,
					tags=['N', 'V'][:rng.randint(1, 2)], punary=0.05,
					pdisc=pdisc, maxarity=rng.choice([2, 3, 4]), pflat=0.1))
			t = T.canonical(t)
			bank.append(dict(t=t, sent=[rng.choice(words)
					for _ in T.leaves(t)]))
		if acyclic([a['t'] for a in bank]) and not any(a['l'] == 'ROOT'
				for b in bank for c in list(T.nodes(b['t']))[1:]
				for a in [c]):
			break
	fs = []
	for b in bank:
		for a in T.nodes(b['t']):
			f = G.renumber(G.cut(rng, a, 1), b['sent'])
			if f not in fs:
				fs.append(f)
	for f in G.frags(rng, bank, rng.choice([0, 2, 5, 10])):
		if f not in fs:
			fs.append(f)
	for lab in {f['t']['l'] for f in fs}:
		own = [f for f in fs if f['t']['l'] == lab]
		ws = C.weights(rng, len(own))
		for f, w in zip(own, ws):
			f['w'], f['occ'] = w, 2 ** (max(ws) - w)
	rng.shuffle(fs)
	known = []
	if rng.random() < 0.7:
		b = rng.choice(bank)
		sent, known = b['sent'], [b['t']]
	else:
		sent = [rng.choice(words[:2]) for _ in range(rng.randint(1, 5))]
	cand = [[a['l'], sorted(T.leaves(a))] for b in bank
			for a in T.nodes(b['t'])] + [['A', [0]], ['N', [1]]]
	pick = lambda: [rng.choice(cand)] if rng.random() < 0.5 else []
	return dict(op='dd', frags=fs, sent=sent, known=known, start='ROOT',
			labels=sorted({a['l'] for b in bank for a in T.nodes(b['t'])}),
			k=rng.choice([1, 5, 2000, 2000, 2000]), n=rng.choice([1, 2, 7]),
			req=pick(), block=pick(),
			alg=rng.choice(['plcfrs', 'pcfg']) if pdisc == 0 else 'plcfrs')


def redinput(rng):
	disc = rng.random() < 0.4
	while True:
		g = C.grammar(rng, disc=disc, cyc=0, nl=rng.randint(1, 5), mixed=0.2,
				nt=rng.randint(1, 3), nwords=rng.randint(1, 3),
				unary=rng.choice([0, 0.2]))
		# addresses for some labels
		names = {}
		for a in g['fan']:
			if a == 'R':
				names[a] = 'R'
				continue
			m = re.match(r'^([A-Za-z]+)(_[0-9])?$', a)
			if not m:
				break
			base = rng.choice('AB' if a[0].isupper() else 'pq') + (
					m.group(2) or '')
			if base not in names.values():
				names[a] = base
			else:
				names[a] = '%s@%d' % (base, len(names))
				if disc and m.group(2) and rng.random() < 0.3:
					names[a] = '%s@%d-%d' % (base, len(names), 2)
		else:
			break
	for key in ('bin', 'un', 'lex'):
		for a in g[key]:
			for k in ('l', 'r1', 'r2'):
				if k in a:
					a[k] = names[a[k]]
	g['fan'] = {names[a]: b for a, b in g['fan'].items()}
	# rules that became equal without addresses are fine, but no duplicates
	sent = C.derive(rng, g, rng.choice([3, 5, 6]))
	if sent is None:
		return None
	labs = sorted({ADDR.sub('', a) for a in g['fan']})
	return dict(op='red', g=g, sent=C.toks(sent), start='R',
			base={a: ADDR.sub('', a) for a in g['fan']},
			marked={a: '@' in a for a in g['fan']},
			k=rng.choice([3, 50, 2000, 2000]), n=rng.choice([1, 2, 7]),
			lam=rng.choice([[1, 1], [1, 1], [0, 1], [1, 2], [3, 1]]),
			mcplabels=rng.sample(labs, rng.randint(1, len(labs)))
				if rng.random() < 0.3 else [],
			alg='plcfrs' if disc else rng.choice(['plcfrs', 'pcfg']))


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(450, 12000)):
		inp = ddinput(rng) if rng.random() < 0.5 else redinput(rng)
		if inp is not None:
			yield inp


def dyadic(p):
	"""A sum of derivations as exponents of 1/2."""
	if not 0 < p <= 1 + 1e-9:
		return [-1]
	m, e = math.frexp(p)
	x = m * 2.0 ** 40
	n = round(x)
	if abs(x - n) > 0.1:
		return [-1]
	return [40 - a - e for a in range(n.bit_length()) if n >> a & 1]


FRAGRE = re.compile(r'\(|\)|[^\s()]+')


def frag(s, weight=''):
	toks = FRAGRE.findall(s)
	words = {}
	pos = [0]

	def walk():
		tok = toks[pos[0]]
		pos[0] += 1
		if tok != '(':
			a, b = tok.split('=', 1)
			words[int(a)] = b or 'None'
			return T.term(int(a))
		lab = toks[pos[0]]
		pos[0] += 1
		kids = []
		while toks[pos[0]] != ')':
			kids.append(walk())
		pos[0] += 1
		return T.node(lab, kids)
	t = walk()
	assert pos[0] == len(toks), s
	m = re.search(r'weight: (\S+)$', weight)
	return dict(t=t, s=[words.get(a, 'None') for a in range(max(words) + 1)],
			w=C.bits(-math.log(float(m.group(1)))) if m else 0)


def results(res, sign=-1):
	out = []
	for t, score, frags in res:
		p, n = (score[1], sign * score[0]) if isinstance(score, tuple) else (
				score, 0)
		out.append(dict(t=C.deriv(t), n=int(n), p=dyadic(p),
				frags=[frag(*a) if isinstance(a, tuple) else frag(a)
					for a in frags or ()]))
	return sorted(out, key=repr)


def getgrammar(inp):
	from discodop.containers import Grammar
	from discodop.grammar import dopgrammar, sortgrammar
	if inp['op'] == 'red':
		tuples = C.tuples(inp['g'])
		# numbers of rules are not recorded
		tuples, alt = sortgrammar(tuples, dict(shortest=shortweights(tuples)))
		grammar = Grammar(tuples, start=inp['start'], altweights=alt)
		grammar.getmapping(None, striplabelre=re.compile(r'@[-0-9]+\b'))
		return grammar
	from discodop.tree import Tree
	rules, back, alt, _ = dopgrammar([Tree(a, [0]) for a in inp['labels']], {G.fragstr(f): [0] * f['occ']
			for f in inp['frags']})
	grammar = Grammar(rules, start=inp['start'], altweights=alt,
			backtransform=back)
	grammar.getmapping(None, neverblockre=re.compile('.+}<'))
	return grammar


def shortweights(tuples):
	import numpy as np
	return np.array([1 if '@' in r[0] else 0.5 for (r, _), _ in tuples],
			dtype=np.double)


def execute(inp):
	from discodop import pcfg, plcfrs
	from discodop.disambiguation import getderivations, marginalize
	alg = dict(pcfg=pcfg, plcfrs=plcfrs)[inp['alg']]
	dd = inp['op'] == 'dd'
	grammar = getgrammar(inp)
	sent = inp['sent'] if dd else [a['w'] for a in inp['sent']]
	k = inp['k']
	grammar.switch('default', True)

	def parse(derivs):
		chart, _ = alg.parse(sent, grammar)
		if not chart:
			return None
		getderivations(chart, k, derivs)
		return chart

	def get(method, **kw):
		res, _ = marginalize(method, chart, sent=sent, k=k,
				sldop_n=inp['n'], **kw)
		return results(res, 1 if method == 'shortest' else -1)
	chart = parse(True)
	if chart is None:
		return dict(ok=False)
	ws = [C.bits(b) for _, b in chart.derivations]
	res = dict(ok=True, nder=len(ws), exact=max(ws) - min(ws) <= 36)
	if not dd:
		res['derivs'] = [dict(t=C.deriv(a), w=C.bits(b))
				for a, b in chart.derivations]
	res['sldop'] = get('sl-dop')
	chart = parse(not dd)
	res['sldops'] = get('sl-dop-simple')
	res['mpd'] = get('mpd')
	res['mpp'] = get('mpp')
	if dd:
		req = {(a, tuple(b)) for a, b in inp['req']}
		block = {(a, tuple(b)) for a, b in inp['block']}
		res['cons'] = get('mpp', require=req or None, block=block or None)
	else:
		res['exactp'] = exactp(inp, grammar, sent, res['mpp'])
		x, _ = marginalize('mcp', chart, sent=sent, k=k,
				mcplambda=inp['lam'][0] / inp['lam'][1],
				mcplabels=set(inp['mcplabels']) or None)
		res['mcp'] = [dict(t=C.deriv(t)) for t, _, _ in x]
	grammar.switch('shortest', True)
	chart = parse(True)
	res['nder2'] = len(chart.derivations)
	if dd:
		getderivations(chart, k, False)
	grammar.switch('default', True)
	derivs = [] if dd else [dict(t=C.deriv(a), w=C.bits(b))
			for a, b in chart.derivations]
	res['derivs2'] = derivs
	res['short'] = get('shortest')
	return res


def exactp(inp, fine, sent, mpp):
	"""Probability of each tree with a DOP reduction."""
	from discodop.containers import Grammar
	from discodop.treetransforms import addbitsets
	from discodop.disambiguation import dopparseprob
	coarse = {}
	for (r, yf), w in C.tuples(inp['g']):
		key = tuple(ADDR.sub('', a) for a in r), yf
		coarse[key] = coarse.get(key, 0) + w
	order = sorted(coarse, key=lambda a: a[0][1] == 'Epsilon')
	coarse = Grammar([(a, coarse[a]) for a in order], start=inp['start'])
	fine.getrulemapping(coarse, re.compile('@[-0-9]+$'))
	res = []
	for a in mpp:
		s = bracket(a['t'])
		res.append(dyadic(math.exp(dopparseprob(addbitsets(s), sent, coarse,
				fine))))
	return res


def bracket(t):
	if t['i'] >= 0:
		return str(t['i'])
	return '(%s %s)' % (t['l'], ' '.join(bracket(a) for a in t['k']))


def nontrivial(inp, out):
	return out.get('nder', 0) > len(out.get('mpp', ())) > 1
