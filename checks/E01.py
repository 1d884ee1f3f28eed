"""Tree edit distance: in the model, all pairs of small forests under all
edit operations (the recursion is the minimal number of operations; the
dynamic program equals the recursion); the real distances and edit scripts on
pairs of enumerated and random trees, unrelated or derived by random edits."""
import copy
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'EditTrace'
MODELS = [('EditDistMC', 'EditDistMC.cfg')]
MODELS_THOROUGH = [('EditDistMC', 'EditDistMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['every terminal has a preterminal of its own',
		'the edit script is read from the output of newtreedist(debug=True)']


def edit(rng, t):
	"""A random change to the structure or labels of t."""
	t = copy.deepcopy(t)
	for _ in range(rng.choice([0, 1, 1, 2, 3])):
		ns = [a for a in T.nodes(t) if not T.ispre(a)]
		a = rng.choice(ns)
		kind = rng.choice('dirsp')
		if kind == 'r':
			a['l'] = rng.choice(['A', 'B', 'C'])
		elif kind == 'd':
			n = rng.randrange(len(a['k']))
			if not T.ispre(a['k'][n]):
				a['k'][n:n + 1] = a['k'][n]['k']
		elif kind == 'i':
			x = rng.randrange(len(a['k']))
			y = rng.randint(x + 1, len(a['k']))
			a['k'][x:y] = [T.node(rng.choice(['A', 'B']), a['k'][x:y])]
		elif kind == 's':
			b = rng.choice([b for b in T.nodes(t) if T.ispre(b)])
			b['l'] = rng.choice(['N', 'V', 'p'])
		elif len(a['k']) > 1:  # move a child elsewhere
			c = a['k'].pop(rng.randrange(len(a['k'])))
			b = rng.choice([b for b in T.nodes(t) if not T.ispre(b)])
			b['k'].append(c)
	return t


def size(t):
	return sum(1 for _ in T.nodes(t))


def inputs(ctx):
	rng = ctx.rng
	enum = [a['t'] for a in ctx.gen('trees')]
	for a in ctx.mine(enum):
		b = rng.choice(enum)
		yield dict(op='pair', t=a, u=b if rng.random() < 0.5 else edit(rng, a))
	done = 0
	while done < ctx.n(700, 7000):
		n = rng.randint(1, rng.choice([4, 6, 8]))
		t = T.rtree(rng, n, ['A', 'B', 'C'], punary=rng.choice([0, 0.2, 0.4]),
				pdisc=rng.choice([0, 0.3, 0.8]))
		if rng.random() < 0.6:
			u = edit(rng, t)
		else:
			u = T.rtree(rng, rng.choice([n, rng.randint(1, 8)]),
					['A', 'B', 'C'], punary=rng.choice([0, 0.3]),
					pdisc=rng.choice([0, 0.5]))
		if size(t) <= 14 and size(u) <= 14:
			yield dict(op='pair', t=t, u=u)
			done += 1


OPRE = re.compile(r'\b([DIS])\((None|\S+\[\d+\]), (None|\S+\[\d+\])\)')


def execute(inp):
	import io
	import contextlib
	from discodop import treedist as M
	t, u = T.dec(inp['t']), T.dec(inp['u'])
	d1 = M.treedist(t, u)
	buf = io.StringIO()
	with contextlib.redirect_stdout(buf):
		d2 = M.newtreedist(t, u, debug=True)
	d3, d4 = M.treedist(u, t), M.newtreedist(u, t)
	d5 = M.treedist(t, t) + M.newtreedist(t, t)

	def num(a):
		return int(a[a.rindex('[') + 1:-1])
	ops = OPRE.findall(buf.getvalue())
	return dict(d1=int(d1), d2=int(d2), d3=int(d3), d4=int(d4), d5=int(d5),
			cost=int(re.search(r'distance=(\d+)', buf.getvalue()).group(1)),
			ops=len(ops),
			**{'del': [num(a) for o, a, _ in ops if o == 'D'],
			'ins': [num(b) for o, _, b in ops if o == 'I'],
			'sub': [[num(a), num(b)] for o, a, b in ops if o == 'S']},
			t=T.enc(t), u=T.enc(u))


def nontrivial(inp, out):
	return out['d1'] > 0
