"""Random grammars with weights that are powers of two, sentences, and the
contents of charts, shared by the parser checks."""
import math
import re

WORDS = ['a', 'b', 'c', 'd', 'é']


def weights(rng, n):
	"""n exponents w with sum(2 ** -w) == 1."""
	ws = [0]
	while len(ws) < n:
		w = ws.pop(rng.randrange(len(ws)))
		ws.extend([w + 1, w + 1])
	rng.shuffle(ws)
	return ws


def yieldfun(rng, n, m, f):
	"""Random binary yield function for children with n and m components and
	a parent with f components, or None."""
	for _ in range(20):
		seq = [0] * n + [1] * m
		rng.shuffle(seq)
		if rng.random() < 0.8 and seq[0] != 0:
			continue
		must = {k for k in range(1, n + m) if seq[k] == seq[k - 1]}
		extra = f - 1 - len(must)
		free = [k for k in range(1, n + m) if k not in must]
		if 0 <= extra <= len(free):
			cuts = sorted(must | set(rng.sample(free, extra)))
			cuts = [0] + cuts + [n + m]
			return [seq[a:b] for a, b in zip(cuts, cuts[1:])]
	return None


def grammar(rng, disc=False, cyc=0.3, nl=None, nt=None, nwords=None,
		mixed=0.3, split=None, unary=0.3):
	"""Returns dict(start, fan, bin, un, lex); every label has a rule.

	mixed: probability that a phrasal label also has lexical rules.
	split: suffixes for labels of preterminals."""
	nl = nl or rng.randint(1, 4)
	nt = nt or rng.randint(1, 3)
	words = WORDS[:nwords or rng.randint(1, 4)]
	labs = ['A', 'B', 'C', 'D', 'E', 'F'][:nl]
	fan = {'R': 1}
	for a in labs:
		fan[a] = rng.choice([1, 1, 2, 2, 3]) if disc else 1
	names = dict(zip(labs, ['%s_%d' % (a, fan[a]) if fan[a] > 1 else a
			for a in labs]))
	labs = [names[a] for a in labs]
	fan = {names.get(a, a): f for a, f in fan.items()}
	if rng.random() < 0.2:  # as introduced by binarization or splitting
		labs[-1] = labs[-1] + rng.choice(['|<x>', '*1'])
		fan = {'R': 1}
		fan.update((a, int(a[2]) if a[1:2] == '_' else 1) for a in labs)
	pos = ['p', 'q', 'r'][:nt]
	if split:
		pos = [a + rng.choice(split) for a in pos]
	fan.update((a, 1) for a in pos)
	alts = {a: [] for a in ['R'] + labs + pos}
	for lhs in ['R'] + labs:
		want = rng.randint(1, 4) + (lhs == 'R')
		for _ in range(12):
			if len(alts[lhs]) >= want:
				break
			if rng.random() < unary:
				opts = [a for a in labs + pos if fan[a] == fan[lhs]
						and a != lhs]
				if not opts:
					continue
				r = ('u', rng.choice(opts))
			else:
				r1, r2 = rng.choice(labs + pos), rng.choice(labs + pos)
				yf = ([[0, 1]] if not disc
						else yieldfun(rng, fan[r1], fan[r2], fan[lhs]))
				if yf is None:
					continue
				r = ('b', r1, r2, yf)
			if r not in alts[lhs]:
				alts[lhs].append(r)
		if fan[lhs] == 1 and lhs != 'R' and (
				rng.random() < mixed or not alts[lhs]):
			for w in rng.sample(words, rng.randint(1, len(words))):
				alts[lhs].append(('l', w))
		if not alts[lhs]:  # make it derivable from tokens
			if fan[lhs] == 1:
				alts[lhs].append(('u', pos[0]))
			elif fan[lhs] == 2:
				alts[lhs].append(('b', pos[0], pos[-1], [[0], [1]]))
			else:
				two = [a for a in labs if fan[a] == 2 and alts[a]]
				if two:
					alts[lhs].append(('b', two[0], pos[0], [[0], [1], [0]]))
				else:
					return grammar(rng, disc, cyc, nl, nt, nwords, mixed, split,
							unary)
	if rng.random() >= cyc and not dropcycles(alts, fan, labs, pos):
		return grammar(rng, disc, cyc, nl, nt, nwords, mixed, split, unary)
	for a in pos:
		for w in rng.sample(words, rng.randint(1, len(words))):
			alts[a].append(('l', w))
	g = dict(start='R', fan=fan, bin=[], un=[], lex=[])
	rules = []
	for lhs in alts:
		for r, w in zip(alts[lhs], weights(rng, len(alts[lhs]))):
			if r[0] == 'l':
				g['lex'].append(dict(l=lhs, word=r[1], w=w))
			else:
				rules.append((lhs, r, w))
	if rng.random() < 0.5:
		rng.shuffle(rules)
	if not rules:
		return grammar(rng, disc, cyc, nl, nt, nwords, mixed, split, unary)
	for no, (lhs, r, w) in enumerate(rules):
		if r[0] == 'u':
			g['un'].append(dict(no=no, l=lhs, r1=r[1], w=w))
		else:
			g['bin'].append(dict(no=no, l=lhs, r1=r[1], r2=r[2], yf=r[3], w=w))
	return g


def dropcycles(alts, fan, labs, pos):
	"""Only keep unary rules to labels further in the list."""
	order = {a: n for n, a in enumerate(['R'] + labs + pos)}
	for lhs in alts:
		if not alts[lhs]:
			continue
		alts[lhs] = [r for r in alts[lhs] if r[0] != 'u'
				or order[r[1]] > order[lhs]]
		if not alts[lhs]:
			two = [a for a in labs if fan[a] == 2]
			if fan[lhs] == 1:
				alts[lhs] = [('u', pos[0])]
			elif fan[lhs] == 2:
				alts[lhs] = [('b', pos[0], pos[-1], [[0], [1]])]
			elif two:
				alts[lhs] = [('b', two[0], pos[0], [[0], [1], [0]])]
			else:
				return False
	return True


def tuples(g):
	"""Rules as expected by the Grammar class, with integral weights."""
	mx = max(a['w'] for a in g['bin'] + g['un'] + g['lex'])
	rules = {}
	for a in g['bin']:
		rules[a['no']] = (((a['l'], a['r1'], a['r2']),
				tuple(tuple(b) for b in a['yf'])), 2 ** (mx - a['w']))
	for a in g['un']:
		rules[a['no']] = (((a['l'], a['r1']),
				((0, ), ) * g['fan'][a['l']]), 2 ** (mx - a['w']))
	return [rules[a] for a in sorted(rules)] + [
			(((a['l'], 'Epsilon'), (a['word'], )), 2 ** (mx - a['w']))
			for a in g['lex']]


def compile(g):
	from discodop.containers import Grammar
	return Grammar(tuples(g), start=g['start'])


def sentence(rng, g, n, known=1.0):
	"""A sentence; half of the time one derived from the grammar, if one of
	length n is found."""
	lexw = sorted({a['word'] for a in g['lex']})
	return [rng.choice(lexw) if rng.random() < known else 'zzz'
			for _ in range(n)]


def derive(rng, g, maxlen):
	"""A random derivable sentence, or None."""
	alts = {}
	for a in g['bin']:
		alts.setdefault(a['l'], []).append(('b', a))
	for a in g['un']:
		alts.setdefault(a['l'], []).append(('u', a))
	for a in g['lex']:
		alts.setdefault(a['l'], []).append(('l', a))

	def expand(lab, depth):
		opts = alts[lab]
		if depth > 4:
			opts = [x for x in opts if x[0] == 'l'] or opts
		if depth > 12:
			return None
		kind, a = rng.choice(opts)
		if kind == 'l':
			return [[a['word']]]
		left = expand(a['r1'], depth + 1)
		if left is None or kind == 'u':
			return left
		right = expand(a['r2'], depth + 1)
		if right is None or sum(map(len, left + right)) > maxlen:
			return None
		parts = [iter(left), iter(right)]
		return [[w for c in comp for w in next(parts[c])] for comp in a['yf']]
	for _ in range(30):
		res = expand(g['start'], 0)
		if res is not None and len(res) == 1 and len(res[0]) <= maxlen:
			return res[0]
	return None


def spans(indices):
	"""Maximal intervals of a sorted list of positions."""
	res = []
	for a in sorted(indices):
		if res and res[-1][1] == a:
			res[-1][1] = a + 1
		else:
			res.append([a, a + 1])
	return res


def bits(logprob):
	"""Weight as an exponent of two, from a negative log probability."""
	if logprob == math.inf:
		return -1
	x = logprob / math.log(2)
	return round(x) if abs(x - round(x)) < 1e-6 else repr(x)


def items(chart):
	"""Contents of a chart; requires the module vfchart."""
	from discodop import vfchart
	res = []
	for lab, idx, prob, edges in vfchart.dump(chart):
		res.append(dict(x=[lab, spans(idx)], w=bits(prob), edges=[
				dict(no=-1, l=['', []], r=['', []], i=e[1]) if e[0] == -1
				else dict(no=e[0], l=[e[1], spans(e[2])],
					r=[e[3], spans(e[4])], i=-1) for e in edges]))
	return res


TOKRE = re.compile(r'\(|\)|[^\s()]+')


def deriv(s):
	"""Parse a derivation in bracket notation."""
	toks = TOKRE.findall(s)
	pos = [0]

	def node():
		assert toks[pos[0]] == '('
		lab = toks[pos[0] + 1]
		pos[0] += 2
		kids = []
		while toks[pos[0]] != ')':
			if toks[pos[0]] == '(':
				kids.append(node())
			else:
				kids.append(dict(l='', i=int(toks[pos[0]]), k=[]))
				pos[0] += 1
		pos[0] += 1
		return dict(l=lab, i=-1, k=kids)
	res = node()
	assert pos[0] == len(toks), s
	return res


def toks(sent, tags=None):
	return [dict(w=a, lw=a.lower(), tag=(tags[n] if tags else '') or '')
			for n, a in enumerate(sent)]


def queries(rng, g, n):
	"""Labeled spans to look up in a chart."""
	res = []
	for _ in range(8):
		lab = rng.choice(sorted(g['fan']))
		k = rng.randint(1, n)
		res.append([lab, spans(rng.sample(range(n), k))
				if rng.random() < 0.3 and g['fan'][lab] > 1
				else spans(range(n)[rng.randrange(n):][:k])])
	res.append(['R', spans(range(n))])
	res.append(['NOLABEL', [[0, 1]]])
	return res


def indices(sp):
	return [a for x, y in sp for a in range(x, y)]


def chartrecord(chart, find):
	"""The contents of a chart as a record."""
	from discodop import vfchart
	out = dict(ok=bool(chart), items=items(chart), find=[], kept=[], best=[])
	n = len(chart.sent)
	for a, b in [(0, n), (0, 1), (n - 1, n), (0, n // 2 + 1), (n // 2, n)]:
		x = chart.bestsubtree(a, b)
		y = vfchart.name(chart, x) if x else ('', [])
		out['best'].append(dict(q=[a, b], x=[y[0], spans(y[1])]))
	for lab, sp in find:
		# for a discontinuous label on a PCFG chart, only the extent counts
		x = chart.itemid(lab, indices(sp))
		y = vfchart.name(chart, x) if x else ('', [])
		out['find'].append(dict(x=[lab, sp], found=bool(x),
				y=[y[0], spans(y[1])]))
	if out['ok']:
		chart.filter()
		out['kept'] = [a['x'] for a in items(chart) if a['edges']]
	return out


def lengthen(rng, g, sent, total):
	"""Replace a word by a chain of words, such that the sentence becomes
	longer than a machine word; returns a new grammar and sentence."""
	g = dict(g, fan=dict(g['fan'], T=1, X=1), bin=list(g['bin']),
			un=list(g['un']), lex=list(g['lex']))
	no = len(g['bin']) + len(g['un'])
	cand = sorted({(a['l'], a['word']) for a in g['lex'] if a['word'] in sent})
	lab, word = rng.choice(cand)
	for key in ('bin', 'un', 'lex'):  # half of the probability mass of lab
		g[key] = [dict(a, w=a['w'] + (a['l'] == lab)) for a in g[key]]
	g['un'].append(dict(no=no, l=lab, r1='T', w=1))
	if rng.random() < 0.5:
		g['bin'].append(dict(no=no + 1, l='T', r1='X', r2='T', yf=[[0, 1]], w=1))
		last = total - len(sent)
	else:
		g['bin'].append(dict(no=no + 1, l='T', r1='T', r2='X', yf=[[0, 1]], w=1))
		last = 0
	g['lex'].extend([dict(l='T', word='y', w=1), dict(l='X', word='x', w=0)])
	chain = ['x'] * (total - len(sent) + 1)
	chain[last] = 'y'
	n = rng.choice([n for n, a in enumerate(sent) if a == word])
	return g, sent[:n] + chain + sent[n + 1:]
