"""Bracketing scores: in the model, all pairs of small trees under a set of
evaluation parameters; random sessions of the real evaluator (scores of each
pair, running totals, summary, and the tables of the command line tool)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import evalx
MODULES = ['bit', 'containers']
SPEC = 'EvalTrace'
MODELS = [('EvalMC', 'EvalMC.cfg'), ('EvalMC', 'EvalMCUn.cfg')]
MODELS_THOROUGH = [('EvalMC', 'EvalMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['EQ_LABEL is used for constituents other than the root, and '
		'not for labels in DELETE_LABEL',
		'tokens missing from a candidate have words that are deleted wherever '
		'they occur in the gold tree',
		'labels of constituents and of preterminals are disjoint',
		'sentence identifiers are unique']


def inputs(ctx):
	rng = ctx.rng
	enum = [a['t'] for a in ctx.gen('trees')]
	for a in ctx.mine(enum):
		g = evalx.deco(rng, a, 0.2)
		b = evalx.deco(rng, rng.choice(enum), 0.2)
		if rng.random() < 0.4:
			b = evalx.edit(rng, g, ['A', 'B'], ['p', 'q'])
		if len(evalx.T.leaves(g)) != len(evalx.T.leaves(b)):
			continue
		p = evalx.params(rng)
		s = ['w%d' % n for n in range(len(evalx.T.leaves(g)))]
		yield dict(op='session', cli=False, p=p,
				ptext=evalx.paramtext(rng, p, False),
				prs=[dict(n='1', gt=g, ct=b, gs=s, cs=s)])
	for _ in range(ctx.n(700, 6000)):
		p = evalx.params(rng)
		yield dict(op='session', cli=False, p=p,
				ptext=evalx.paramtext(rng, p, False),
				prs=evalx.session(rng, p))
	for _ in range(ctx.n(400, 4000)):
		yield evalx.clisession(rng, evalx.params(rng))


def execute(inp):
	return evalx.runsession(inp)


def nontrivial(inp, out):
	return not out.get('err')
