"""Charts of the PCFG parser: in the model, deduction in order of length is
compared with exhaustive closure in any order; the charts of the real parser
(dense and sparse) are compared with the closure, item by item and edge by
edge."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'pcfg', 'vfchart']
SPEC = 'ChartTrace'
MODELS = [('ChartMC', 'ChartMC.cfg'), ('ChartMC', 'ChartMCPrio.cfg')]
MODELS_THOROUGH = [('ChartMC', 'ChartMCBig.cfg'),
		('ChartMC', 'ChartMCPrio.cfg')]
ASSUMPTIONS = ['rules have distinct productions; probabilities of the '
		'generated grammars are powers of two']
BIG = 20001  # number of labels for which a sparse chart is used


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(2000, 20000)):
		split = ['', '@1', '^S', '-HD', '/x', '|q'] if rng.random() < 0.3 else None
		g = C.grammar(rng, cyc=0.4, split=split,
				mixed=rng.choice([0, 0.3, 0.6]), unary=rng.choice([0.2, 0.4, 0.6]))
		maxlen = rng.choice([2, 3, 4, 5, 6, 8])
		sent = C.derive(rng, g, maxlen) if rng.random() < 0.7 else None
		if sent is None:
			sent = C.sentence(rng, g, rng.randint(1, maxlen),
					known=0.95 if rng.random() < 0.2 else 1)
		tags = None
		if rng.random() < 0.25:
			pos = sorted({a['l'].split('@')[0].split('^')[0] for a in g['lex']})
			tags = [rng.choice(pos + ['x']) if rng.random() < 0.3 else None
					for _ in sent]
			sent = ['zzz' if t and rng.random() < 0.3 else w
					for w, t in zip(sent, tags)]
		if rng.random() < 0.1:
			sent = [w.upper() for w in sent]
		mask = []
		if rng.random() < 0.15:
			nos = [a['no'] for a in g['bin'] + g['un']]
			mask = rng.sample(nos, rng.randint(1, len(nos)) // 2)
		start = rng.choice(sorted(g['fan'])) if rng.random() < 0.1 else 'R'
		yield dict(kind='chart', alg='cfg', g=g, sent=C.toks(sent, tags),
				start=start, mask=mask, pad=BIG if n % 60 == 59 else 0,
				find=C.queries(rng, g, len(sent)))


def execute(inp):
	from discodop import pcfg
	from discodop.containers import Grammar
	g = inp['g']
	grammar = Grammar(C.tuples(g) + [
			((('x%d' % n, 'Epsilon'), ('w%d' % n, )), 1)
			for n in range(inp['pad'])], start=g['start'])
	if inp['mask']:
		grammar.setmask([a['no'] for a in g['bin'] + g['un']
				if a['no'] not in inp['mask']])
	sent = [a['w'] for a in inp['sent']]
	tags = [a['tag'] or None for a in inp['sent']]
	chart, _msg = pcfg.parse(sent, grammar, tags=tags if any(tags) else None,
			start=None if inp['start'] == g['start'] else inp['start'])
	return C.chartrecord(chart, inp['find'])


def nontrivial(inp, out):
	return out.get('ok') and len(out.get('items', ())) > 3
