"""Encoding of trees as JSON for the specification, and random trees.

Imported by the checks both inside and outside the driver; imports of the
code under test happen inside functions."""


def enc(t):
	"""Tree object -> JSON. Raises on anything that is not a proper tree."""
	if isinstance(t, int):
		return dict(l='', i=t, k=[])
	label = t.label
	if not isinstance(label, str):
		raise ValueError('label %r' % (label, ))
	return dict(l=label, i=-1, k=[enc(c) for c in t])


def dec(d, cls=None):
	"""JSON -> Tree object (default ParentedTree)."""
	if cls is None:
		from discodop.tree import ParentedTree as cls
	if d['i'] >= 0:
		return d['i']
	return cls(d['l'], [dec(c, cls) for c in d['k']])


def leaves(d):
	if d['i'] >= 0:
		return [d['i']]
	return [a for c in d['k'] for a in leaves(c)]


def nodes(d):
	if d['i'] >= 0:
		return
	yield d
	for c in d['k']:
		yield from nodes(c)


def node(lab, kids):
	return dict(l=lab, i=-1, k=kids)


def term(n):
	return dict(l='', i=n, k=[])


def ispre(d):
	return d['i'] < 0 and len(d['k']) == 1 and d['k'][0]['i'] >= 0


def canonical(d):
	if d['i'] >= 0:
		return d
	return dict(l=d['l'], i=-1,
			k=sorted([canonical(c) for c in d['k']],
				key=lambda c: min(leaves(c))))


def relabel(d, f):
	if d['i'] >= 0:
		return d
	return dict(l=f(d), i=-1, k=[relabel(c, f) for c in d['k']])


def fanout(s):
	s = set(s)
	return sum(1 for a in s if a - 1 not in s)


def rtree(rng, n, labels, tags=('N', 'V', 'D'), punary=0.15, pdisc=0.4,
		root='ROOT', maxarity=6, pflat=0.2):
	"""Random (discontinuous) tree over positions 0..n-1."""
	def build(pos):
		if len(pos) == 1:
			t = node(rng.choice(tags), [term(pos[0])])
		else:
			k = len(pos) if rng.random() < pflat else rng.randint(
					2, max(2, min(maxarity, len(pos))))
			k = min(k, len(pos))
			if rng.random() < pdisc:
				blocks = [[] for _ in range(k)]
				rest = list(pos)
				rng.shuffle(rest)
				for b in blocks:
					b.append(rest.pop())
				for a in rest:
					rng.choice(blocks).append(a)
				blocks = [sorted(b) for b in blocks]
			else:
				cuts = sorted(rng.sample(range(1, len(pos)), k - 1))
				blocks = [pos[a:b] for a, b in zip([0] + cuts,
						cuts + [len(pos)])]
			blocks.sort()
			t = node(rng.choice(labels), [build(b) for b in blocks])
		while rng.random() < punary:
			t = node(rng.choice(labels), [t])
		return t
	t = build(list(range(n)))
	if ispre(t) or rng.random() < 0.5:
		return node(root, [t])
	return dict(t, l=root)


def words(rng, n, vocab=('the', 'cat', 'dog', 'sees', 'a', 'big')):
	return [rng.choice(vocab) for _ in range(n)]
