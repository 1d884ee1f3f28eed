"""Shared input generators."""
import trees as T


def withheads(rng, t, p=0.7, pos=None):
	"""Annotate each node with the index of its head child (or -1)."""
	if t['i'] >= 0:
		return t
	hd = -1
	if not T.ispre(t) and rng.random() < p:
		hd = rng.randrange(len(t['k'])) if pos is None else min(
				pos, len(t['k']) - 1)
	return dict(l=t['l'], i=-1, hd=hd, k=[withheads(rng, c, p, pos)
			for c in t['k']])


def dechd(d, cls=None):
	"""Like T.dec, but also sets head marks."""
	from discodop.tree import HEAD
	tree = T.dec(d, cls)

	def walk(a, b):
		if b['i'] >= 0:
			return
		if b.get('hd', -1) >= 0:
			a[b['hd']].type = HEAD
		for x, y in zip(a, b['k']):
			walk(x, y)
	walk(tree, d)
	return tree


def binparams(rng, ho=None, simple=False):
	"""Random binarization parameters."""
	ho = rng.random() < 0.4 if ho is None else ho
	return dict(factor=rng.choice(['right', 'left']),
			h=rng.choice([0, 1, 2, 3, 999]), v=rng.choice([1, 1, 2, 3, 0]),
			revh=rng.choice([0, 0, 1, 2]), markhead=rng.random() < 0.3,
			ho=ho, tail=rng.choice(['', '', '$']), lmu=rng.random() < 0.3,
			rmu=rng.random() < 0.3, thr=rng.choice([2, 2, 2, 1, 3]),
			artpa=rng.random() < 0.7, dot=rng.random() < 0.2,
			dir=ho and rng.random() < 0.5,
			filt=rng.choice([[], [], ['A'], ['B', 'N']]),
			lf=rng.random() < 0.15)


def callbinarize(tree, p, **kw):
	from discodop.treetransforms import binarize
	if p['lf']:
		kw['labelfun'] = lambda n: n.label + "'"
	return binarize(tree, factor=p['factor'], horzmarkov=p['h'],
			vertmarkov=p['v'], revhorzmarkov=p['revh'],
			markhead=p['markhead'], headoutward=p['ho'],
			tailmarker=p['tail'], leftmostunary=p['lmu'],
			rightmostunary=p['rmu'], threshold=p['thr'], artpa=p['artpa'],
			dot=p['dot'], direction=p['dir'],
			filterlabels=tuple(p['filt']), **kw)
