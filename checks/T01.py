"""Edit histories on sets of ParentedTrees: every single edit on all small
forests (TLC enumeration), sampled, and random histories of up to 25 edits;
links and derived positions of every node are compared after every edit."""
MODULES = ['bit']
SPEC = 'ForestTrace'
MODELS = [('ForestMC', 'ForestMC.cfg')]
MODELS_THOROUGH = [('ForestMC', 'ForestMCBig.cfg')]
GEN = [('GenForests', 'GenForests.cfg', 'forests')]
ASSUMPTIONS = ['edits that would make a node its own ancestor, and pruning '
		'or splicing above a root, are not generated (undefined)']
OPS = ['append', 'extend', 'insert', 'set', 'setpath', 'del', 'delpath',
		'pop', 'setslice', 'delslice', 'remove', 'detach', 'disown', 'prune',
		'spliceabove', 'splicebelow', 'new']


def randop(rng, n, leaves, op=None):
	op = op or rng.choice(OPS)

	def child():
		return rng.randint(1, n) if rng.random() < 0.75 else -rng.randint(
				1, leaves)
	k = 1
	if op in ('extend', 'setslice', 'new'):
		k = rng.choice([0, 1, 2, 2, 3])
	return dict(op=op, p=rng.randint(1, n), a=rng.randint(-3, 4),
			b=rng.randint(-3, 4), cs=[child() for _ in range(k)],
			path=[rng.randint(-2, 1) for _ in range(rng.randint(0, 3))],
			lab=rng.choice('AB'), it=rng.random() < 0.3)


def inputs(ctx):
	rng = ctx.rng
	for f in ctx.gen('forests'):
		for op in ctx.mine(OPS * (8 if ctx.thorough else 2)):
			labs = [rng.choice('AB') for _ in f['kids']]
			n = len(f['kids'])
			ops = [randop(rng, n, 1, op)] + [randop(rng, n, 1)
					for _ in range(rng.choice([0, 0, 2]))]
			yield dict(op='edit', labs=labs, kids=f['kids'], ops=ops)
	for _ in range(ctx.n(1200, 15000)):
		n = rng.randint(3, 8)
		kids = [[] for _ in range(n)]
		for a in range(1, n):  # a random forest
			if rng.random() < 0.8:
				p = kids[rng.randrange(a)]
				p.insert(rng.randint(0, len(p)), a + 1)
		for p in kids:
			for _ in range(rng.choice([0, 0, 1, 2])):
				p.insert(rng.randint(0, len(p)), -rng.randint(1, 3))
		ops = [randop(rng, n, 3) for _ in range(rng.randint(3, 25))]
		yield dict(op='edit', labs=[rng.choice('AB') for _ in kids],
				kids=kids, ops=ops)


def execute(inp):
	from discodop.tree import ParentedTree, Tree
	nodes = [None] + [ParentedTree(l, []) for l in inp['labs']]

	def val(x):
		return nodes[x] if x > 0 else -x
	for n, k in enumerate(inp['kids'], 1):
		nodes[n].extend([val(x) for x in k])

	def ident(x):
		if isinstance(x, Tree):
			for n in range(1, len(nodes)):
				if nodes[n] is x:
					return n
			return 999
		return -x

	def observe():
		ns = nodes[1:]

		def sib(x):
			return 0 if x is None else ident(x)
		return dict(labs=[x.label for x in ns],
				kids=[[ident(c) for c in x.children] for x in ns],
				parent=[0 if x.parent is None else ident(x.parent)
					for x in ns],
				index=[-1 if x.parent_index is None else x.parent_index
					for x in ns],
				left=[sib(x.left_sibling) for x in ns],
				right=[sib(x.right_sibling) for x in ns],
				root=[ident(x.root) for x in ns],
				path=[list(x.treeposition) for x in ns])

	def above(n):
		res = {n}
		while True:
			new = {m for m in range(1, len(nodes)) if any(
					nodes[k] is c for c in nodes[m].children for k in res)}
			if new <= res:
				return res
			res |= new

	def excluded(o):
		op = o['op']
		if op in ('prune', 'spliceabove'):
			return nodes[o['p']].parent is None
		if op in ('append', 'extend', 'insert', 'set', 'setslice', 'setpath'):
			t = nodes[o['p']]
			if op == 'setpath':
				try:
					for x in o['path'][:-1]:
						t = t.children[x]
				except Exception:
					return False
				if not isinstance(t, Tree):
					return False
			return bool(above(ident(t)) & set(o['cs']))
		return False
	start = observe()
	steps = []
	for o in inp['ops']:
		if len(nodes) > 14 or any(x >= len(nodes) for x in o['cs']):
			pass
		if excluded(o):
			steps.append(dict(skipped=True))
			continue
		op, p, a, b = o['op'], nodes[o['p']], o['a'], o['b']
		cs = [val(x) for x in o['cs']]
		many = iter(cs) if o['it'] else cs
		err, res = False, 0
		try:
			if op == 'append':
				p.append(cs[0])
			elif op == 'extend':
				p.extend(many)
			elif op == 'insert':
				p.insert(a, cs[0])
			elif op == 'set':
				p[a] = cs[0]
			elif op == 'setpath':
				p[tuple(o['path'])] = cs[0]
			elif op == 'del':
				del p[a]
			elif op == 'delpath':
				del p[tuple(o['path'])]
			elif op == 'pop':
				res = ident(p.pop(a))
			elif op == 'setslice':
				p[a:b] = many
			elif op == 'delslice':
				del p[a:b]
			elif op == 'remove':
				p.remove(cs[0])
			elif op == 'detach':
				res = ident(p.detach())
			elif op == 'disown':
				p.disown()
			elif op == 'prune':
				p.prune()
			elif op in ('spliceabove', 'splicebelow', 'new'):
				new = ParentedTree(o['lab'], many) if op == 'new' else getattr(
						p, op)(o['lab'])
				nodes.append(new)
				res = len(nodes) - 1
		except (ValueError, IndexError, TypeError):
			err = True
		steps.append(dict(skipped=False, err=err, res=res, obs=observe()))
	return dict(start=start, steps=steps)


def nontrivial(inp, out):
	return any(not s['skipped'] and not s['err'] for s in out['steps'])
