"""Inside and outside scores of charts: in the model, sums in any order found by
depth-first traversal are compared with enumeration of all derivation trees;
the scores of the real code, and the items it keeps given a threshold on
posterior probabilities, are compared with exact sums."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'vfchart']
SPEC = 'ChartTrace'
MODELS = [('InsideMC', 'InsideMC.cfg')]
MODELS_THOROUGH = [('InsideMC', 'InsideMC.cfg'), ('InsideMC', 'InsideMCBig.cfg')]
ASSUMPTIONS = ['grammars have no cycles of unary rules; rules have distinct '
		'productions; probabilities of the generated grammars are powers of '
		'two, and sums that need more than 52 binary digits are not compared']


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(1400, 12000)):
		alg = rng.choice(['cfg', 'lcfrs'])
		long = alg == 'lcfrs' and n % 60 == 59
		g = C.grammar(rng, disc=alg == 'lcfrs' and rng.random() < 0.8, cyc=0,
				mixed=rng.choice([0, 0.3, 0.6]), unary=rng.choice([0.1, 0.3, 0.5]),
				nl=rng.randint(1, 5), nwords=rng.randint(1, 3))
		maxlen = rng.choice([3, 5]) if long else rng.choice([2, 3, 4, 5, 6])
		sent = C.derive(rng, g, maxlen)
		if sent is None or rng.random() < 0.1:
			sent = C.sentence(rng, g, rng.randint(1, maxlen))
		elif long:
			g, sent = C.lengthen(rng, g, sent, rng.choice([63, 64, 65, 70]))
		tags = None
		if not long and rng.random() < 0.25:
			pos = sorted({a['l'] for a in g['lex']})
			tags = [rng.choice(pos) if rng.random() < 0.3 else None for _ in sent]
			sent = ['zzz' if t and rng.random() < 0.5 else w
					for w, t in zip(sent, tags)]
		elif rng.random() < 0.1:
			sent = [w.upper() for w in sent]
		yield dict(kind='sums', alg=alg, g=g, sent=C.toks(sent, tags), start='R',
				mask=[], t=rng.choice([1, 1, 2, 3, 4, 6, 8, 12, 20]),
				pad=20001 if alg == 'cfg' and n % 90 == 88 else 0)


def digits(x):
	"""Positions of ones in the binary expansion of x: x = sum(2 ** -a)."""
	if x is None:
		return [9999]
	if not 0 <= x <= 2:
		return [9999, repr(x)]
	num, den = x.as_integer_ratio()
	den = den.bit_length() - 1
	return [den - n for n in range(num.bit_length()) if num >> n & 1]


def execute(inp):
	from discodop import pcfg, plcfrs, vfchart, coarsetofine
	from discodop.containers import Grammar
	g = inp['g']
	grammar = Grammar(C.tuples(g) + [
			((('x%d' % n, 'Epsilon'), ('w%d' % n, )), 1)
			for n in range(inp['pad'])], start=g['start'])
	sent = [a['w'] for a in inp['sent']]
	tags = [a['tag'] or None for a in inp['sent']]
	chart, _msg = (pcfg if inp['alg'] == 'cfg' else plcfrs).parse(
			sent, grammar, tags=tags if any(tags) else None)
	if not chart:
		return dict(ok=False, sums=[], kept=[])
	kept, _msg = coarsetofine.posteriorthreshold(chart, 0.5 ** inp['t'])
	kept = [vfchart.name(chart, a) for a in kept]
	return dict(ok=True, kept=[[a, C.spans(b)] for a, b in kept],
			sums=[dict(x=[a, C.spans(b)], i=digits(c), o=digits(d))
				for a, b, c, d in vfchart.sums(chart)])


def nontrivial(inp, out):
	return len(out.get('sums', ())) > 3
