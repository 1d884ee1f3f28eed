"""Bracket notation: the parser on every text over 5 symbols up to length 6,
and printing and re-reading of all small trees (TLC enumeration) and random
discontinuous trees with random tokens, reformatted and pretty-printed."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'BracketsTrace'
MODELS = [('BracketsMC', 'BracketsMC.cfg')]
GEN = [('GenTrees', 'GenTreesCont.cfg', 'cont'),
		('GenTrees', 'GenTreesDisc.cfg', 'disc')]
ASSUMPTIONS = ['tokens contain no white space and none of the escape '
		'sequences; labels contain no brackets']
TOKS = ['a', 'the', '(', ')', '(x)', 'a=b', '=', "'", '"', '1', '2=x',
		'#', '\\', '/', '1/2', '$.', ',', '-', '[', ']', '{', '}', 'a(b)c',
		'None1', '*', '|', ';', '%', '&amp;', '<', '0']


def tok(rng, none=True):
	r = rng.random()
	if none and r < 0.1:
		return 'None'
	if r < 0.8:
		return rng.choice(TOKS)
	return ''.join(rng.choice('ab(){}[]=/\\#1-') for _ in range(
			rng.randint(1, 5))).replace('-LRB-', 'x')


def unpre(rng, t, p):
	if t['i'] >= 0:
		return t
	if rng.random() < p:
		return T.node(t['l'], [T.term(n) for n in sorted(T.leaves(t))])
	return dict(t, k=[unpre(rng, c, p) for c in t['k']])


def deep(rng, t, n):
	for _ in range(n):
		t = T.node(rng.choice(['AA', 'B-X']), [t])
	return t


def shuffled(rng, t):
	if t['i'] >= 0:
		return t
	k = [shuffled(rng, c) for c in t['k']]
	rng.shuffle(k)
	return dict(t, k=k)


def inputs(ctx):
	rng = ctx.rng

	def brk(t):
		n = len(T.leaves(t))
		sent = [tok(rng) for _ in range(n)]
		if rng.random() < 0.6 and all(re.match('[0-9]+=', a) for a in sent):
			sent[0] = 'w'  # cannot be told apart from discbracket
		if all(re.match('[0-9]+=', a) for a in sent):
			return []
		if 'None' in sent and not all(T.ispre(x) or all(
				c['i'] < 0 for c in x['k']) for x in T.nodes(t)):
			sent = [a if a != 'None' else 'w' for a in sent]
		return [dict(op='bracket', t=t, sent=sent, seed=rng.randrange(999))]

	def disc(t):
		sent = [tok(rng) for _ in T.leaves(t)]
		return [dict(op='discbracket', t=t, sent=sent, seed=rng.randrange(999))]
	for n in range(7 if not ctx.thorough else 8):
		for s in ctx.mine(itertools.product('()a \n', repeat=n)):
			if n < 5 or ctx.thorough or rng.random() < 0.25 or (
					s.count('(') == s.count(')')):
				yield dict(op='parse', s=''.join(s), cls=rng.choice(
						['Tree', 'ParentedTree']))
	for a in ctx.mine(ctx.gen('cont')):
		if ctx.thorough or rng.random() < 0.4:
			yield from brk(a['t'])
	for a in ctx.mine(ctx.gen('disc')):
		if ctx.thorough or rng.random() < 0.4:
			yield from disc(a['t'])
	for _ in range(ctx.n(1200, 16000)):
		n = rng.randint(1, 12)
		labels = ['A', 'B-X', 'NP_1', '$(' if False else '$.', '1', "X|<Y>"]
		t = T.rtree(rng, n, labels, tags=['N', '1', '$.', 'D=x'], punary=0.2,
				pdisc=0)
		if rng.random() < 0.2:
			t = deep(rng, t, rng.randint(10, 40))
		if rng.random() < 0.3:
			t = unpre(rng, t, 0.2)
		yield from brk(t)
		t = T.rtree(rng, n, labels, tags=['N', '1', '$.', 'D=x'], punary=0.2)
		if rng.random() < 0.2:
			t = deep(rng, t, rng.randint(10, 40))
		if rng.random() < 0.3:
			t = unpre(rng, t, 0.2)
		t = shuffled(rng, t)
		yield from disc(t)
		yield dict(op='print', t=t, n=n, margin=rng.choice([5, 20, 70]),
				cls=rng.choice(['Tree', 'ParentedTree', 'ImmutableTree']))
		s = tok(rng)
		if not re.search(r'-[LR][RCS]B-', s):
			yield dict(op='esc', s=s)
		s = ''.join(rng.choice('()aA \n') for _ in range(rng.randint(7, 25)))
		yield dict(op='parse', s=s, cls='Tree')


def nontrivial(inp, out):
	return inp['op'] != 'parse' or out.get('ok', True)


def encany(t):
	if isinstance(t, int):
		return T.term(t)
	return dict(l=t.label, i=-1, k=[encany(c) for c in t])


def execute(inp):
	import random
	from discodop import tree as M
	op = inp['op']
	if op == 'parse':
		words = []

		def leaf(x):
			words.append(x)
			return len(words) - 1
		try:
			t = getattr(M, inp['cls']).parse(inp['s'], parse_leaf=leaf)
		except ValueError:
			return dict(ok=False)
		return dict(ok=True, t=encany(t), words=words)
	if op == 'esc':
		s = None if inp['s'] == 'None' else inp['s']
		e, p = M.escape(s), M.ptbescape(s)
		return dict(e=e, back=M.unescape(e), p=p, pback=M.ptbunescape(p))
	if op == 'print':
		cls = getattr(M, inp['cls'])
		t = T.dec(inp['t'], cls)
		p = t.pprint(margin=inp['margin'], indent=1)
		return dict(str=str(t), back=T.enc(cls(str(t))), pretty=p,
				pback=T.enc(cls.parse(p)),
				rback=T.enc(eval(repr(t), dict(vars(M)))))
	t = T.dec(inp['t'])
	sent = [None if a == 'None' else a for a in inp['sent']]

	def reformat(s):
		"""Change white space in ways that make no difference."""
		r = random.Random(inp['seed'])
		# between brackets, and between label and bracket
		s = re.sub(r'\) \(', lambda m: ')' + r.choice(
				[' ', '\n', '  ', '\n\t', '']) + '(', s)
		s = re.sub(r'\)\)', lambda m: ')' + r.choice(['', ' ', '\n ']) + ')', s)
		s = re.sub(r'(?<=[^( \n]) \(', lambda m: r.choice(
				[' ', '\n  ']) + '(', s)
		return s
	if op == 'bracket':
		text = M.writebrackettree(t, sent)
		a, sa = M.brackettree(text)
		b, sb = M.brackettree(text, detectdisc=False)
		c, sc = M.brackettree(reformat(text))
		return dict(text=text, t=T.enc(a), words=sa, t2=T.enc(b), words2=sb,
				t3=T.enc(c), words3=sc)
	text = M.writediscbrackettree(t, sent)
	pretty = M.writediscbrackettree(t, sent, pretty=True)
	res = dict(text=text)
	for n, (f, s) in enumerate([(M.discbrackettree, text),
			(M.discbrackettree, pretty), (M.brackettree, text),
			(M.brackettree, pretty), (M.brackettree, reformat(text))], 1):
		a, sa = f(s)
		x = '' if n == 1 else str(n)
		res['t' + x] = T.enc(a)
		res['words' + x] = sa
	return res
