"""Bit vector helpers against finite sets: every subset of a small universe at
several offsets around word boundaries, and random sets up to 512 positions;
the inline Cython functions are reached through a small wrapper module."""
MODULES = ['bit', 'vfbit']
SPEC = 'BitsTrace'
MODELS = [('BitsMC', 'BitsMC.cfg')]
MODELS_THOROUGH = [('BitsMC', 'BitsMCBig.cfg')]
ASSUMPTIONS = ['scan positions lie below the number of bits of the vector',
		'pure Python fallback of fanout in tree.py is also run']


def rset(rng, n):
	kind = rng.random()
	if kind < 0.4:
		p = rng.choice([0.02, 0.2, 0.5, 0.8, 0.98])
		return [a for a in range(n) if rng.random() < p]
	if kind < 0.7:  # runs
		res, a = [], rng.randint(0, n)
		while a < n:
			b = min(n, a + rng.choice([1, 1, 2, 5, 31, 32, 63, 64, 65]))
			res.extend(range(a, b))
			a = b + rng.choice([1, 1, 2, 31, 33, 63, 64])
		return res
	edge = [a for b in range(0, n + 1, 32) for a in range(b - 2, b + 3)
			if 0 <= a < n]
	return sorted(set(rng.sample(edge, rng.randint(0, len(edge)))))


def inputs(ctx):
	rng = ctx.rng
	width = 8 if ctx.thorough else 6
	offsets = [0, 3, 29, 58, 60, 61, 62, 64, 126]
	def subsets():
		for off in offsets:
			for m in range(1 << width):
				yield [off + n for n in range(width) if m & (1 << n)]
	for a in ctx.mine(subsets()):
		yield dict(op='py', a=a, pos=rng.choice([0] + a + [b + 1 for b in a]))
		if not a or max(a) < 64:
			yield dict(op='one', a=a, pos=rng.choice([p for p in [0, 63]
					+ a + [b + 1 for b in a] if p < 64]))
		slots = 3
		yield dict(op='many', a=a, b=rng.choice([a, a + [150], a[1:],
				[n for n in a if rng.random() < 0.9], rset(rng, 192)]),
				pos=rng.choice([0, 63, 64, 127, 191] + a
					+ [n + 1 for n in a]), slots=slots)
	for _ in range(ctx.n(3000, 40000)):
		op = rng.choice(['py', 'one', 'many'])
		if op == 'one':
			yield dict(op=op, a=rset(rng, 64), pos=rng.randrange(64))
		else:
			slots = rng.randint(1, 4)
			n = 64 * slots
			a = rset(rng, n)
			if op == 'py':
				yield dict(op=op, a=a, pos=rng.randrange(n + 70))
			else:
				b = rng.choice([rset(rng, n), a + [p for p in rset(rng, n)
						if p not in a], a])
				if b and rng.random() < 0.3:
					b = [p for p in b if p != b[len(b) // 2]]
				yield dict(op=op, a=a, b=sorted(b), pos=rng.randrange(n),
						slots=slots)


def nontrivial(inp, out):
	return len(inp['a']) > 1


def execute(inp):
	a = inp['a']
	if inp['op'] == 'one':
		from discodop.vfbit import one
		return one(a, inp['pos'])
	if inp['op'] == 'many':
		from discodop.vfbit import many
		return many(a, inp['b'], inp['pos'], inp['slots'])
	from discodop import bit, tree, grammar, treetransforms
	vec = sum(1 << n for n in a)
	fan = [bit.fanout(vec)]
	for mod in (tree, treetransforms):
		fan.append(mod.bitfanout(vec))
	return dict(count=bit.pyintbitcount(vec),
			next=bit.pyintnextset(vec, inp['pos']), fanouts=fan,
			getbits=list(treetransforms.getbits(vec)),
			ranges=[list(r) for r in grammar.ranges(a)],
			heads=list(grammar.rangeheads(a)))
