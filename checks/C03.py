"""Merge, ordered sets, slice bounds and tokenization against models of them:
exhaustive over small inputs, random beyond."""
import itertools
MODULES = ['bit']
SPEC = 'SeqsTrace'
MODELS = [('MergeMC', 'MergeMC.cfg')]
ASSUMPTIONS = ['tokenizer inputs are ASCII; which contractions are split is '
		'not specified']
WORDS = ["can't", 'cannot', 'gonna', "D'ye", "he'll", "l'homme", "qu'il",
		'2,500', 'x,', "dogs'", "'tis", 'twas', 'Mr.', 'U.S.', 'a-b', 'and/or',
		'AT&T', '(foo)', '"bar"', 'end.', '...', "aujourd'hui", "qu'", "'",
		'a', 'I', '$5', '10%', '[x]', "o'clock", ',', '.', "more'n", "l'"]


def inputs(ctx):
	rng = ctx.rng
	keyseqs = [s for n in range(3)
			for s in itertools.combinations_with_replacement((1, 2), n)]
	for ss in ctx.mine(itertools.product(keyseqs, repeat=3)):
		yield dict(op='merge', ss=[[[k, 100 * a + b] for b, k in enumerate(s)]
				for a, s in enumerate(ss)])
	bounds = [[]] + [[x] for x in range(-6, 7)]
	for n, a, b in ctx.mine(itertools.product(range(5), bounds, bounds)):
		yield dict(op='slice', n=n, start=a, stop=b, step=1, allow=False)
		step = rng.choice([1, 2, 3, -1, -2])
		yield dict(op='slice', n=n, start=a, stop=b, step=step, allow=True)
		if step != 1:
			yield dict(op='stepreject', n=n, start=a, stop=b, step=step)
	for a, b in ctx.mine(itertools.product([list(s) for n in range(4)
			for s in itertools.product('xyz', repeat=n)], repeat=2)):
		if ctx.thorough or rng.random() < 0.4:
			yield dict(op='oset', a=a, b=b)
	for _ in range(ctx.n(1500, 20000)):
		k = rng.randint(0, 7)
		ss = [[[x, 100 * a + b] for b, x in enumerate(sorted(
				rng.randint(0, rng.choice([2, 9, 50]))
				for _ in range(rng.randint(0, 9))))] for a in range(k)]
		yield dict(op='merge', ss=ss)
		a = [rng.choice('abcdefg') for _ in range(rng.randint(0, 8))]
		b = [rng.choice('abcdefg') for _ in range(rng.randint(0, 8))]
		yield dict(op='oset', a=a, b=rng.choice([b, sorted(a), a[:3]]))
		text = ''
		for _ in range(rng.randint(0, 8)):
			text += rng.choice(WORDS) + rng.choice(['', ' ', ' ', '  ', '\n'])
		if rng.random() < 0.3:
			text = ''.join(rng.choice('ab\'",.!? -/&l') for _ in range(
					rng.randint(1, 12)))
		yield dict(op='tok', text=list(text))


def nontrivial(inp, out):
	if inp['op'] == 'merge':
		return sum(bool(s) for s in inp['ss']) > 1
	return True


def execute(inp):
	from discodop import util
	op = inp['op']
	if op == 'merge':
		taken = [0] * len(inp['ss'])

		def it(n):
			for a in inp['ss'][n]:
				taken[n] += 1
				yield a
		res, ahead = [], []
		given = [0] * len(inp['ss'])
		for a in util.merge(*[it(n) for n in range(len(inp['ss']))],
				key=lambda x: x[0]):
			res.append(a)
			given[a[1] // 100] += 1
			ahead.append(max(t - g for t, g in zip(taken, given)))
		return dict(merged=res, plain=list(util.merge(*[
				[x[0] for x in s] for s in inp['ss']])), ahead=ahead)
	if op in ('slice', 'stepreject'):
		sl = slice(*[(a[0] if a else None) for a in (inp['start'],
				inp['stop'])] + [inp['step'] if inp['step'] != 1 else None])
		seq = list(range(inp['n']))
		if op == 'stepreject':
			try:
				util.slice_bounds(seq, sl)
			except ValueError:
				return dict(rejected=True)
			return dict(rejected=False)
		b = util.slice_bounds(seq, sl, allow_step=inp['allow'])
		return dict(bounds=list(b), sel=list(range(*b)))
	if op == 'oset':
		O = util.OrderedSet
		a, b = O(inp['a']), O(iter(inp['b']))
		return dict(seq=list(a), rev=list(reversed(a)), len=len(a),
				isin=[x in a for x in inp['b']],
				items=[a[n] for n in range(len(a))],
				**{'and': list(a & b), 'or': list(a | b)}, sub=list(a - b),
				xor=list(a ^ b), eq=a == b, ne=a != b,
				samehash=hash(a) == hash(b), le=a <= b, disj=a.isdisjoint(b))
	return dict(toks=[list(t) for t in util.tokenize(''.join(inp['text']))])
