"""Random generation: in the model, all top-down derivations of small
grammars; in the real code, grammars without recursion are read from text (both
formats) and sampled until every sentence of their (finite) language that is
not too improbable must have been seen; sentences and probabilities are
compared with those enumerated from the specification."""
import gzip
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import lcfrs as L
MODULES = ['bit']
SPEC = 'GenTrace'
MODELS = [('GenMC', 'GenMC.cfg')]
ASSUMPTIONS = ['grammars without recursion',
		'a sentence with probability 1/64 or more occurs in 2500 samples']
WORDS = ['a', 'b', 'c', 'é', '.', '1']
NTS = ['S', 'A', 'B', 'C']
D = ['D', 'E']  # fan-out 2
# adjacent components of the same child are always merged
YFS = {(1, 1, 1): [[[0, 1]], [[0, 1]], [[1, 0]]],
		(1, 2, 1): [[[0, 1, 0]]], (1, 1, 2): [[[1, 0, 1]]],
		(1, 2, 2): [[[0, 1, 0, 1]], [[1, 0, 1, 0]]],
		(2, 1, 1): [[[0], [1]], [[1], [0]]],
		(2, 2, 1): [[[0, 1], [0]], [[0], [1, 0]], [[0], [0, 1]]][:2]
			+ [[[1, 0], [0]], [[0], [0, 1]]],
		(2, 2, 2): [[[0, 1], [0, 1]], [[0, 1], [1, 0]], [[1], [0, 1, 0]]],
		(1, 1): [[[0]]], (2, 2): [[[0], [0]]]}


def randgrammar(rng, bitpar):
	order = ['S', 'A'] + ([] if bitpar else rng.choice([[], ['D'], ['E', 'D']])
			) + rng.choice([['B'], ['B', 'C']])
	fan = {a: 2 if a in D else 1 for a in order}
	rules = []
	for n, lhs in enumerate(order):
		later = order[n + 1:]
		phr = rng.choice([0, 1, 2, 3]) if later else 0
		if fan[lhs] == 2 or lhs == 'S':
			phr = max(phr, 1)
		for _ in range(phr):
			for _ in range(10):
				rhs = rng.choices(later, k=rng.choice([1, 2, 2]))
				key = (fan[lhs], ) + tuple(fan[a] for a in rhs)
				if key in YFS :
					yf = [[0, 1]] if bitpar and len(rhs) == 2 else (
							rng.choice(YFS[key]))
					rules.append(dict(r=[lhs] + rhs, yf=yf, w=''))
					break
		if fan[lhs] == 1 and (phr == 0 or rng.random() < 0.4):
			for w in rng.sample(WORDS, rng.choice([1, 1, 2, 3])):
				rules.append(dict(r=[lhs, 'Epsilon'], yf=[], w=w))
	res = []
	for p in rules:
		if p not in [a['p'] for a in res]:
			res.append(dict(p=p, w=rng.choice([1, 1, 1, 2, 3])))
	return res


def numderivs(g, x):
	total = 0
	for a in g:
		if a['p']['r'][0] == x:
			n = 1
			for y in a['p']['r'][1:] if a['p']['yf'] else []:
				n *= numderivs(g, y)
			total += n
	return total


def maxden(g, x):
	"""Largest denominator of a derivation."""
	mass = sum(a['w'] for a in g if a['p']['r'][0] == x)
	best = 1
	for a in g:
		if a['p']['r'][0] == x:
			n = 1
			for y in a['p']['r'][1:] if a['p']['yf'] else []:
				n *= maxden(g, y)
			best = max(best, n)
	return mass * best


def text(rng, g, bitpar):
	mass = {}
	for a in g:
		mass[a['p']['r'][0]] = mass.get(a['p']['r'][0], 0) + a['w']
	style = rng.choice(['int', 'frac'] if not bitpar else ['int'])
	if all(m in (1, 2, 4, 8, 5) for m in mass.values()):
		style = rng.choice([style, 'float'])

	def weight(a):
		m = mass[a['p']['r'][0]]
		if style == 'int':
			return str(a['w'])
		elif style == 'frac':
			return '%d/%d' % (a['w'], m)
		return repr(a['w'] / m)
	rules, lex = [], {}
	for a in g:
		p = a['p']
		if not p['yf']:
			lex.setdefault(p['w'], []).append((p['r'][0], weight(a)))
		elif bitpar:
			rules.append(rng.choice(['\t', ' ']).join([weight(a)] + p['r']))
		else:
			rules.append('\t'.join(p['r'] + [','.join(''.join(map(str, b))
					for b in p['yf']), weight(a)]))
	rng.shuffle(rules)
	return ('\n'.join(rules) + '\n', ''.join('%s\t%s\n' % (w, '\t'.join(
			'%s %s' % b for b in t)) for w, t in lex.items()))


def inputs(ctx):
	rng = ctx.rng
	done = 0
	while done < ctx.n(700, 6000):
		bitpar = rng.random() < 0.4
		g = randgrammar(rng, bitpar)
		if numderivs(g, 'S') > 150 or maxden(g, 'S') > 15000:
			continue
		r, l = text(rng, g, bitpar)
		yield dict(op=rng.choice(['gen', 'gen', 'cli']), g=g, rules=r, lex=l,
				bitpar=bitpar, seed=rng.randrange(10 ** 6),
				gz=rng.random() < 0.3)
		done += 1


def frac(p):
	a = Fraction(p).limit_denominator(20000)
	if abs(float(a) - p) > 1e-12:
		return [-1, 1]
	return [a.numerator, a.denominator]


def execute(inp):
	import contextlib
	import io
	import random
	from discodop import gen as M
	random.seed(inp['seed'])
	if inp['op'] == 'cli':
		names = []
		for name, data in (('r', inp['rules']), ('l', inp['lex'])):
			names.append(name + ('.gz' if inp['gz'] else '.txt'))
			with (gzip.open if inp['gz'] else open)(names[-1], 'wb') as out:
				out.write(data.encode('utf8'))
		buf = io.StringIO()
		argv = sys.argv
		sys.argv = ['gen', '-s', 'S'] + names
		try:
			with contextlib.redirect_stdout(buf):
				M.main()
		finally:
			sys.argv = argv
		obs = []
		for line in buf.getvalue().splitlines():
			p, rest = line[1:].split('] ', 1)
			obs.append([rest.split(' '), list(Fraction(
					float(p)).limit_denominator(15000).as_integer_ratio())])
		return dict(obs=obs)
	rules = io.StringIO(inp['rules'])
	lex = io.StringIO(inp['lex'])
	g = (M.read_bitpar_grammar if inp['bitpar']
			else M.read_lcfrs_grammar)(rules, lex)
	out = [dict(p=L.encprod(a), pr=frac(w)) for a, w in g]
	sg = M.splitgrammar(g)
	obs = set()
	for _ in range(2500):
		p, sent = M.gen(sg, start=sg.toid['S'])
		assert len(sent) == 1
		obs.add((tuple(sent[0]), p))
	return dict(rules=out, obs=sorted(
			[list(a), frac(p)] for a, p in obs))
