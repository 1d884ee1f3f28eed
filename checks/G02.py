"""Treebank grammars: in the model, frequencies of productions accumulated
over all small treebanks; the real induction of grammars (and the relative
frequencies of the compiled grammar object) on random treebanks, with and
without extra rules."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
MODULES = ['bit', 'containers']
SPEC = 'LcfrsTrace'
MODELS = [('BankMC', 'BankMC.cfg')]
MODELS_THOROUGH = [('BankMC', 'BankMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesSmall.cfg', 'trees')]
ASSUMPTIONS = ['the grammar object is only checked for binarized treebanks '
		'with a unique root label and labels with a fixed fan-out']
WORDS = ['a', 'b', 'c', '(', ')', 'é', '0']


def inputs(ctx):
	rng = ctx.rng
	enum = [a['t'] for a in ctx.gen('trees')]
	for _ in range(ctx.n(1200, 12000)):
		bank = []
		compiled = rng.random() < 0.6
		for _ in range(rng.choice([1, 2, 3, 5, 10])):
			if rng.random() < 0.3:
				t = rng.choice(enum)
			else:
				t = T.rtree(rng, rng.randint(1, rng.choice([3, 5, 9])),
					['A', 'B'], punary=rng.choice([0, 0.2, 0.4]),
					pdisc=rng.choice([0, 0.3, 0.8]))
			labs = rng.choice([['N'], ['N', 'V', 'P']])
			t = T.relabel(t, lambda d: rng.choice(labs) if T.ispre(d)
					else d['l'])
			if compiled:
				t = L.markfanout(L.binarized(t))
				if T.ispre(t):
					t = T.node('ROOT', [t])
				t = T.node('ROOT', T.relabel(t, lambda d: 'A'
						if d['l'] == 'ROOT' else d['l'])['k'])
				if T.ispre(t):
					t = T.node('ROOT', [T.node('N', t['k'])])
			bank.append(dict(t=t, sent=[rng.choice(WORDS)
					for _ in T.leaves(t)]))
		extra = []
		if not compiled and rng.random() < 0.3:
			for x in range(rng.randint(1, 3)):
				extra.append(dict(w=rng.randint(1, 5), p=rng.choice([
					dict(r=['A', 'B', 'A'], yf=[[0, 1]], w=''),
					dict(r=['A', 'B', 'B'], yf=[[0, x, 0]], w=''),
					dict(r=['N', 'Epsilon'], yf=[], w=rng.choice('abx')),
					dict(r=['ROOT', 'A'], yf=[[0]], w='')])))
			extra = [a for n, a in enumerate(extra)
					if a['p'] not in [b['p'] for b in extra[:n]]]
		yield dict(op='bank', bank=bank, extra=extra, bin=compiled)


def execute(inp):
	from discodop import tree, grammar
	trees = [T.dec(a['t'], tree.Tree) for a in inp['bank']]
	sents = [a['sent'] for a in inp['bank']]
	extra = {L.decprod(a['p']): a['w'] for a in inp['extra']}
	rules = grammar.treebankgrammar(trees, sents, extra or None)
	gram, test = [], True
	if inp['bin']:
		from discodop.containers import Grammar
		g = Grammar(rules, start='ROOT')
		gram = L.grammarrules(g)
		for a in gram:  # the grammar object has unescaped words
			a['p']['w'] = tree.escape(a['p']['w'])
		test = g.testgrammar(1e-9)[0]
	return dict(rules=[dict(p=L.encprod(a), w=L.num(w)) for a, w in rules],
			gram=gram, test=test)
