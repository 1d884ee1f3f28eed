"""Leaf-ancestor, tree distance, dependency scores and their auxiliary
functions: models of the metrics on all pairs of small trees; random sessions
of the real evaluator with these metrics enabled."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import evalx
MODULES = ['bit', 'containers']
SPEC = 'EvalTrace'
MODELS = [('EvalMC', 'EvalMC.cfg')]
MODELS_THOROUGH = [('EvalMC', 'EvalMCBig.cfg'), ('EvalMC', 'EvalMCUn.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['for dependencies, constituents are not deleted, heads of '
		'constituents are not deleted tokens',
		'leaf ancestor scores are compared with a precision of 10^-6']


def params(rng):
	p = evalx.params(rng)
	p.update(EQL=[], LA=rng.choice([0, 1, 1]), TED=rng.choice([0, 1, 1]))
	return p


def inputs(ctx):
	rng = ctx.rng
	enum = [a['t'] for a in ctx.gen('trees')]
	for a in ctx.mine(enum):
		g = evalx.deco(rng, a, 0)
		b = evalx.edit(rng, g, ['A', 'B'], ['p'])
		if rng.random() < 0.5:
			b = evalx.deco(rng, rng.choice(enum), 0)
		s = ['w%d' % n for n in range(len(evalx.T.leaves(g)))]
		if len(evalx.T.leaves(b)) != len(s):
			continue
		p = dict(params(rng), LA=1, TED=rng.choice([0, 1]), DW=[], EQW=[],
				DL=['ROOT'], DLL=[], DRP=0)
		yield dict(op='session', cli=False, p=p,
				ptext=evalx.paramtext(rng, p, False),
				prs=[dict(n='1', gt=g, ct=b, gs=s, cs=s)])
	for _ in range(ctx.n(500, 5000)):
		p = params(rng)
		p['DEP'] = rng.choice([0, 1, 1])
		if p['DEP']:
			p.update(DL=[a for a in p['DL'] if a not in ('S', 'VP')], EQW=[])
		yield dict(op='session', cli=False, p=p,
				ptext=evalx.paramtext(rng, p, False),
				prs=evalx.session(rng, p))
	for _ in range(ctx.n(200, 2000)):
		yield evalx.clisession(rng, params(rng))
	for _ in range(ctx.n(1200, 12000)):
		op = rng.choice(['edit', 'mean', 'span', 'align', 'closure'])
		if op == 'edit':
			a = [rng.choice('abc()') for _ in range(rng.randint(0, 8))]
			b = [rng.choice('abc()') for _ in range(rng.randint(0, 8))]
			if rng.random() < 0.4:
				b = list(a)
				for _ in range(rng.randint(0, 3)):
					if rng.random() < 0.5 and b:
						b.pop(rng.randrange(len(b)))
					else:
						b.insert(rng.randint(0, len(b)), rng.choice('abc'))
			yield dict(op=op, a=a, b=b)
		elif op == 'mean':
			yield dict(op=op, s=[rng.choice([0, 1, 1, 2, 3, 4, 5, 6])
					if rng.random() < 0.2 else rng.randint(1, 6)
					for _ in range(rng.randint(0, 8))])
		elif op == 'span':
			b = sorted((rng.choice(['S', 'NP', 'VP', '']), sum(1 << a
					for a in set(rng.choices(range(rng.choice([5, 10, 70])),
					k=rng.randint(1, 8))))) for _ in range(rng.randint(1, 5)))
			yield dict(op=op, b=[[x, [n for n in range(80) if y >> n & 1]]
					for x, y in b])
		elif op == 'align':
			g = [rng.choice('abc') for _ in range(rng.randint(0, 8))]
			c = [a for a in g if rng.random() < 0.7]
			if rng.random() < 0.2:
				c.insert(rng.randint(0, len(c)), 'd')
			yield dict(op=op, g=g, c=c)
		else:
			yield dict(op=op, e=[[rng.choice('ABCDEFG'), rng.choice('ABCDEFG')]
					for _ in range(rng.randint(0, 6))])


def execute(inp):
	if inp['op'] == 'session':
		return evalx.runsession(inp)
	from discodop import eval as M
	op = inp['op']
	if op == 'edit':
		return dict(d=M.editdistance(inp['a'], inp['b']),
				r=M.editdistance(''.join(inp['b']), ''.join(inp['a'])),
				p=evalx.scaled(M.pathscore(inp['a'], inp['b'])))
	elif op == 'mean':
		from decimal import Decimal

		def num(a):
			return -1 if a.is_nan() else round(a * 10000)
		s = [Decimal(a) for a in inp['s']]
		return dict(m=num(M.mean(s)), h=num(M.harmean(s)))
	elif op == 'span':
		b = [(x, sum(1 << a for a in y)) for x, y in inp['b']]
		return dict(iv=[list(a) for a in M.intervals(b[0][1])],
				str=M.strbracketings(b).split(', '))
	elif op == 'align':
		return dict(al=[list(a) for a in M.alignsent(inp['c'], inp['g'],
				{n: 't%d' % n for n in range(len(inp['g']))}).items()])
	res = M.transitiveclosure({tuple(a) for a in inp['e']})
	return dict(c=[[a, sorted(b)] for a, b in res.items()])


def nontrivial(inp, out):
	return bool(out) and not out.get('err')
