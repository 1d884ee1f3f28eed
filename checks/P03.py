"""k-best derivations of charts: their weights are those of the k best in the
count of all derivations by weight, and each is a different valid derivation
with that weight."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'vfchart']
SPEC = 'ChartTrace'
MODELS = [('KBestMC', 'KBestMC.cfg')]
MODELS_THOROUGH = [('KBestMC', 'KBestMCBig.cfg')]
ASSUMPTIONS = ['grammars have no cycles of unary rules; rules have distinct '
		'productions; probabilities of the generated grammars are powers of '
		'two']


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(2400, 16000)):
		alg = rng.choice(['cfg', 'lcfrs'])
		long = alg == 'lcfrs' and n % 60 == 59
		g = C.grammar(rng, disc=alg == 'lcfrs' and rng.random() < 0.8, cyc=0,
				mixed=rng.choice([0, 0.3, 0.6]), unary=rng.choice([0.1, 0.3, 0.5]),
				nl=rng.randint(1, 5), nwords=rng.randint(1, 3))
		maxlen = rng.choice([3, 5]) if long else rng.choice([2, 3, 4, 5, 6, 7])
		sent = C.derive(rng, g, maxlen)
		if sent is None or rng.random() < 0.1:
			sent = C.sentence(rng, g, rng.randint(1, maxlen))
		elif long:
			g, sent = C.lengthen(rng, g, sent, rng.choice([63, 64, 65, 70]))
		if rng.random() < 0.1:
			sent = [w.upper() for w in sent]
		yield dict(kind='kbest', alg=alg, g=g, sent=C.toks(sent), start='R',
				mask=[], k=rng.choice([1, 2, 3, 5, 10, 20, 50, 200]))


def execute(inp):
	from discodop import pcfg, plcfrs
	from discodop.kbest import lazykbest, partitionincompletechart
	grammar = C.compile(inp['g'])
	sent = [a['w'] for a in inp['sent']]
	chart, _msg = (pcfg if inp['alg'] == 'cfg' else plcfrs
			).parse(sent, grammar)
	if not chart:
		return dict(ok=False, derivs=[], parts=[list(a) for a
				in partitionincompletechart(chart, 0, len(sent))])
	return dict(ok=True, parts=[], derivs=[dict(t=C.deriv(a), w=C.bits(b))
			for a, b in lazykbest(chart, inp['k'])])


def nontrivial(inp, out):
	return len(out.get('derivs', ())) > 1
