"""Tree values: comparison, hashing, copying, freezing, conversion, index
paths and traversals for every tree class; all pairs of small trees (TLC
enumeration, sampled) and random ones."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'TreeValsTrace'
MODELS = [('TreeValsMC', 'TreeValsMC.cfg')]
GEN = [('GenTrees', 'GenTreesSmall.cfg', 'trees')]
CLS = ['Tree', 'ParentedTree', 'ImmutableTree', 'ImmutableParentedTree']
MUT = CLS[:2]


def lab(d):
	return T.relabel(d, lambda x: 'C' if x['l'] == 'p' else x['l']
			if x['l'] in 'ABCD' or x['l'] == 'ROOT' else 'ABCD'[
			hash_(x['l']) % 4])


def hash_(s):
	return sum(map(ord, s))


def allpaths(t, pre=()):
	yield pre
	if t['i'] < 0:
		for n, c in enumerate(t['k']):
			yield from allpaths(c, pre + (n, ))


def at(t, p):
	for n in p:
		t = t['k'][n]
	return t


def replace(t, p, x):
	if not p:
		return x
	return dict(t, k=[replace(c, p[1:], x) if n == p[0] else c
			for n, c in enumerate(t['k'])])


def variant(rng, t):
	"""A tree that is equal or slightly different."""
	r = rng.random()
	if r < 0.3:
		return t
	p = rng.choice(list(allpaths(t)))
	x = at(t, p)
	if x['i'] >= 0:
		return replace(t, p, T.term(x['i'] + rng.choice([-1, 1])
				if x['i'] else 1))
	if r < 0.6:
		return replace(t, p, dict(x, l=rng.choice('ABCD')))
	if r < 0.8 and len(x['k']) > 1:
		return replace(t, p, dict(x, k=x['k'][:-1]))
	return replace(t, p, dict(x, k=x['k'] + [T.term(rng.randint(0, 3))]))


def flat(rng, t, p):
	"""Remove some preterminals so that terminals have siblings."""
	if t['i'] >= 0:
		return t
	if rng.random() < p:
		return T.node(t['l'], [T.term(n) for n in T.leaves(t)])
	return dict(t, k=[flat(rng, c, p) for c in t['k']])


def inputs(ctx):
	for inp in inputs_(ctx):
		if inp['op'] == 'cmp':
			inp['ma'], inp['mb'] = [[n for n in range(12)
					if ctx.rng.random() < p] for p in (0.3, 0.3)]
		yield inp


def inputs_(ctx):
	rng = ctx.rng
	trees = [lab(a['t']) for a in ctx.gen('trees')]

	def one(t):
		yield dict(op='traverse', t=t, cls=rng.choice(CLS))
		paths = list(allpaths(t))[1:]
		path = list(rng.choice(paths))
		yield dict(op='copy', t=t, path=path, cls=rng.choice(MUT))
		yield dict(op='immut', t=t, cls=rng.choice(CLS[2:]))
		kind = rng.choice(['set', 'del'])
		x = rng.choice([T.term(7), at(t, rng.choice(paths)),
				T.node('D', [])])
		yield dict(op='edit', t=t, path=path, x=x, kind=kind,
				cls=rng.choice(MUT), neg=rng.random() < 0.3)
	for t in ctx.mine(trees):
		yield from one(t)
		yield dict(op='cmp', a=t, b=variant(rng, t), ca=rng.choice(CLS),
				cb=rng.choice(CLS))
		yield dict(op='cmp', a=t, b=rng.choice(trees), ca=rng.choice(CLS),
				cb=rng.choice(CLS))
	for _ in range(ctx.n(800, 10000)):
		n = rng.randint(1, 10)
		t = T.rtree(rng, n, ['A', 'B'], tags=['C', 'D'], punary=rng.choice(
				[0, 0.3]))
		if rng.random() < 0.5:
			t = flat(rng, t, 0.2)
		yield from one(t)
		yield dict(op='cmp', a=t, b=variant(rng, t), ca=rng.choice(CLS),
				cb=rng.choice(CLS))
		b = variant(rng, t)
		sa = [rng.choice('xyz') for _ in range(n + 2)]
		sb = sa if rng.random() < 0.5 else [rng.choice('xyz') if
				rng.random() < 0.2 else w for w in sa]
		yield dict(op='disc', a=t, b=b if max(T.leaves(b), default=0) < n + 2
				else t, sa=sa, sb=sb)


def execute(inp):
	import copy
	import pickle
	from discodop import tree as M
	op = inp['op']

	def mk(d, cls):
		return T.dec(d, getattr(M, cls))

	def encs(xs):
		return [enc(x) for x in xs]

	def enc(x):
		return T.term(x) if isinstance(x, int) else T.enc(x)
	if op == 'cmp':
		a, b = mk(inp['a'], inp['ca']), mk(inp['b'], inp['cb'])
		# annotation is not part of the value
		for x, marks in ((a, inp['ma']), (b, inp['mb'])):
			if not isinstance(x, M.ImmutableTree):
				for n, st in enumerate(x.subtrees()):
					if n in marks:
						st.type, st.source = M.HEAD, ['w', 'l', 'T%d' % n]
		fa, fb = a.freeze(), b.freeze()
		return dict(eq=a == b, ne=a != b, lt=a < b, le=a <= b, gt=a > b,
				ge=a >= b, feq=fa == fb, mixed=a == fb,
				samehash=hash(fa) == hash(fb), setsize=len({fa, fb}),
				other=a == 'A' or a == None or a == [a])
	if op == 'disc':
		a = M.DiscTree(mk(inp['a'], 'ImmutableTree'), inp['sa'])
		b = M.DiscTree(mk(inp['b'], 'ImmutableTree'), inp['sb'])
		return dict(eq=a == b, samehash=hash(a) == hash(b))
	if op == 'copy':
		t = mk(inp['t'], inp['cls'])
		t.type, t.source = 'HEAD', ['a', 'b']
		copies = [t.copy(True), t.freeze(), copy.deepcopy(t),
				pickle.loads(pickle.dumps(t, protocol=-1))]
		want = [t.__class__, M.ImmutableTree if inp['cls'] == 'Tree'
				else M.ImmutableParentedTree, t.__class__, t.__class__]
		for c in CLS:
			copies.append(getattr(M, c).convert(t))
			want.append(getattr(M, c))
		work = copies[0].copy(True)
		before = encs(copies)
		eqs = [c == t for c in copies] + [t == c for c in copies]
		annot = [[c.type, c.source] for c in copies]
		del t[tuple(inp['path'])]
		if t.source:
			t.source.append('x')
		edited = enc_any(t)
		after = encs(copies)
		del work[tuple(inp['path'])]
		return dict(copies=before, eqs=eqs, annot=annot,
				annot0=['HEAD', ['a', 'b']], edited=edited, after=after,
				types=[c.__class__.__name__ for c in copies],
				wanttypes=[c.__name__ for c in want], orig2=enc(copies[0]))
	if op == 'immut':
		t = mk(inp['t'], inp['cls'])
		h = hash(t)
		new = mk(T.node('A', [T.term(0)]), 'ImmutableTree' if inp['cls'] ==
				'ImmutableTree' else 'ImmutableParentedTree')

		def setit(i, v):
			t[i] = v

		def delit(i):
			del t[i]

		def iadd():
			nonlocal t
			t += [new]

		def imul():
			nonlocal t
			t *= 2
		rejected = []
		for f in [lambda: t.append(new), lambda: t.extend([new]),
				lambda: t.insert(0, new), lambda: t.pop(), lambda: t.pop(0),
				lambda: t.remove(t[0]), lambda: setit(0, new),
				lambda: setit((0, ), new), lambda: setit(slice(0, 1), []),
				lambda: delit(0), lambda: delit((0, )),
				lambda: delit(slice(0, 1)), iadd, imul] + ([
				lambda: t.disown(), lambda: t[0].detach()
				if isinstance(t[0], M.Tree) else t.disown(),
				lambda: t.splicebelow('X')]
				if 'Parented' in inp['cls'] else []):
			try:
				f()
				rejected.append(False)
			except (ValueError, TypeError):
				rejected.append(True)
		return dict(rejected=rejected, t=T.enc(t),
				samehash=hash(t) == h and t.freeze().__hash__() == h)
	t = mk(inp['t'], inp['cls'])
	if op == 'edit':
		p = tuple(inp['path'])
		if inp['neg']:
			x, q = t, []
			for n in p:
				q.append(n - len(x))
				x = x[n]
			p = tuple(q)
		if inp['kind'] == 'set':
			t[p] = inp['x']['i'] if inp['x']['i'] >= 0 else mk(
					inp['x'], inp['cls'])
		else:
			del t[p]
		return dict(t=enc_any(t))
	n = len(t.leaves())
	span = [[a, b, list(t.treeposition_spanning_leaves(a, b))]
			for a in range(n) for b in range(a + 1, n + 1)][:40]

	def raises(f):
		try:
			f()
		except IndexError:
			return True
		return False
	found = t.find(lambda x: isinstance(x, M.Tree) and x.label == 'B')
	return dict(pre=encs(t.subtrees()), post=encs(t.postorder()),
			cond=encs(t.subtrees(lambda x: len(x) > 1)),
			condpost=encs(t.postorder(lambda x: len(x) > 1)),
			leaves=t.leaves(), frozenleaves=list(t.freeze().leaves()),
			height=t.height(), pos=[list(a) for a in t.pos()],
			ppre=[list(a) for a in t.treepositions()],
			ppost=[list(a) for a in t.treepositions('postorder')],
			pboth=[list(a) for a in t.treepositions('bothorder')],
			pleaves=[list(a) for a in t.treepositions('leaves')],
			leafpos=[list(t.leaf_treeposition(a)) for a in range(n)],
			at=encs(t[tuple(p)] for p in t.treepositions()),
			span=span, leafneg=raises(lambda: t.leaf_treeposition(-1)),
			leafbig=raises(lambda: t.leaf_treeposition(n)), len=len(t),
			iter=encs(iter(t)), index=[t.index(c) for c in t],
			find=[] if found is None else [enc(found)])


def enc_any(t):
	"""Like T.enc, but allow nodes without children."""
	if isinstance(t, int):
		return T.term(t)
	return dict(l=t.label, i=-1, k=[enc_any(c) for c in t])
