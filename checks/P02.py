"""Charts of the LCFRS parser: in the model, agenda-driven deduction is
compared with closure; the charts of the real parser, for sentences that fit
in a machine word and longer ones, are compared with the closure."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'plcfrs', 'vfchart']
SPEC = 'ChartTrace'
MODELS = [('ChartMC', 'ChartMC.cfg'), ('ChartMC', 'ChartMCPrio.cfg')]
MODELS_THOROUGH = [('ChartMC', 'ChartMCBig.cfg'),
		('ChartMC', 'ChartMCPrio.cfg')]
ASSUMPTIONS = ['rules have distinct productions; probabilities of the '
		'generated grammars are powers of two']


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(2400, 16000)):
		long = n % 40 == 39
		split = ['', '@1', '^S', '-HD', '/x', '|q'] if rng.random() < 0.3 else None
		g = C.grammar(rng, disc=rng.random() < 0.85, cyc=0 if long else 0.4,
				split=split, mixed=rng.choice([0, 0.3, 0.6]),
				unary=rng.choice([0.1, 0.3, 0.5]))
		maxlen = rng.choice([3, 5]) if long else rng.choice([2, 3, 4, 5, 6, 7])
		sent = (C.derive(rng, g, maxlen)
				if rng.random() < 0.8 or long else None)
		if sent is None:
			sent = C.sentence(rng, g, rng.randint(1, maxlen),
					known=0.95 if rng.random() < 0.2 else 1)
		tags = None
		if long and any(a in {b['word'] for b in g['lex']} for a in sent):
			g, sent = C.lengthen(rng, g, sent, rng.choice(
					[62, 63, 64, 65, 66, 67, 70, 80, 127, 128]
					if rng.random() < 0.3 else [63, 64, 65, 66, 68]))
		elif rng.random() < 0.2:
			pos = sorted({a['l'].split('@')[0].split('^')[0] for a in g['lex']})
			tags = [rng.choice(pos + ['x']) if rng.random() < 0.3 else None
					for _ in sent]
			sent = ['zzz' if t and rng.random() < 0.3 else w
					for w, t in zip(sent, tags)]
		elif rng.random() < 0.1:
			sent = [w.upper() for w in sent]
		mask = []
		if rng.random() < 0.15:
			nos = [a['no'] for a in g['bin'] + g['un']]
			mask = rng.sample(nos, rng.randint(1, len(nos)) // 2)
		start = rng.choice(sorted(a for a in g['fan'] if g['fan'][a] == 1)
				) if rng.random() < 0.1 else 'R'
		yield dict(kind='first' if not long and rng.random() < 0.2 else 'chart', alg='lcfrs', g=g, sent=C.toks(sent, tags),
				start=start, mask=mask, find=C.queries(rng, g, len(sent)))


def execute(inp):
	from discodop import plcfrs
	g = inp['g']
	grammar = C.compile(g)
	if inp['mask']:
		grammar.setmask([a['no'] for a in g['bin'] + g['un']
				if a['no'] not in inp['mask']])
	sent = [a['w'] for a in inp['sent']]
	tags = [a['tag'] or None for a in inp['sent']]
	chart, _msg = plcfrs.parse(sent, grammar,
			exhaustive=inp['kind'] == 'chart',
			tags=tags if any(tags) else None,
			start=None if inp['start'] == g['start'] else inp['start'])
	if inp['kind'] == 'first':
		return dict(ok=bool(chart), items=C.items(chart))
	return C.chartrecord(chart, inp['find'])


def nontrivial(inp, out):
	return out.get('ok') and len(out.get('items', ())) > 3
