"""Grammars of fragments: in the model, fragments are added to a grammar one by
one and all must be recovered from their rules; the rules, templates and weights
obtained from the real code are evaluated in the same way."""
import contextlib
import io
import os
import re
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
MODULES = ['bit']
SPEC = 'FragGramTrace'
MODELS = [('FragGrammarMC', 'FragGrammarMC.cfg'),
		('FragGrammarMC', 'FragGrammarMCFlat.cfg')]
MODELS_THOROUGH = [('FragGrammarMC', 'FragGrammarMCFlatBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['labels do not contain "@" or "}<"',
		'labels identify the fan-out', 'words do not contain parentheses']
WORDS = ['a', 'b', 'é', '0', '1=2', 'x=', '.', ',', "'s", '*', '{0}']


def cut(rng, t, p):
	"""Fragment of t: open nodes dominate all their positions directly."""
	if T.ispre(t):
		return t
	return T.node(t['l'], [
			T.node('open ' + c['l'], [T.term(n) for n in sorted(T.leaves(c))])
			if rng.random() < p else cut(rng, c, p) for c in t['k']])


def renumber(t, sent):
	"""Components of open nodes become one position; gaps are kept."""
	units = []

	def walk(a):
		if a['k'][0]['i'] >= 0:
			units.append(a)
		else:
			for c in a['k']:
				walk(c)
	walk(t)
	owner = {}
	for u, a in enumerate(units):
		for n in T.leaves(a):
			owner[n] = u
	words, pos, prev = [], {}, None
	for n in sorted(owner):
		opn = units[owner[n]]['l'].startswith('open ')
		if prev is not None and n == prev + 1 and opn and (
				owner[n] == owner[prev]):
			pass
		else:
			if prev is not None and n > prev + 1:
				words.append('None')
			pos.setdefault(owner[n], []).append(len(words))
			words.append('None' if opn else sent[n])
		prev = n
	cnt = [0]

	def rebuild(a):
		if a['k'][0]['i'] >= 0:
			u = cnt[0]
			cnt[0] += 1
			return T.node(a['l'][5:] if a['l'].startswith('open ') else a['l'],
					[T.term(n) for n in pos[u]])
		return T.node(a['l'], [rebuild(c) for c in a['k']])
	return dict(t=rebuild(t), sent=words)


def fragstr(f):
	def walk(a):
		if a['i'] >= 0:
			w = f['sent'][a['i']]
			return '%d=%s' % (a['i'], '' if w == 'None' else w)
		return '(%s %s)' % (a['l'], ' '.join(walk(c) for c in a['k']))
	return walk(f['t'])


def brackstr(f):
	def walk(a):
		if a['i'] >= 0:
			w = f['sent'][a['i']]
			return '' if w == 'None' else w
		return '(%s %s)' % (a['l'], ' '.join(walk(c) for c in a['k']))
	return walk(f['t'])


def continuous(f):
	return T.leaves(f['t']) == list(range(len(f['sent'])))


def flatfrag(rng):
	"""A root over interleaved units."""
	n = rng.randint(1, 9)
	owner, words = [], []
	while len(owner) < n:
		u = rng.randrange(rng.choice([3, 5, 6]))
		if not owner or u != owner[-1]:
			owner.append(u)
	if n > 2 and rng.random() < 0.2:
		owner[rng.randrange(1, n - 1)] = None
	byunit = {}
	for a, b in enumerate(owner):
		if b is not None:
			byunit.setdefault(b, []).append(a)
	words = ['None'] * n
	kids = []
	for u in sorted(byunit, key=lambda u: byunit[u][0]):
		lab = rng.choice('XXY')
		if len(byunit[u]) == 1 and rng.random() < 0.2:
			words[byunit[u][0]] = rng.choice(WORDS)
			lab = 'N'
		if len(byunit[u]) > 1:
			lab += '_%d' % len(byunit[u])
		kids.append(T.node(lab, [T.term(a) for a in byunit[u]]))
	if rng.random() < 0.3:
		rng.shuffle(kids)
	lab = 'S'
	f = T.fanout(a for b in byunit.values() for a in b)
	return dict(t=T.node(lab + ('_%d' % f if f > 1 else ''), kids), sent=words)


def randtree(rng, pool):
	if rng.random() < 0.4:
		t = rng.choice(pool)['t']
	else:
		t = T.rtree(rng, rng.randint(1, 9), rng.choice([['A', 'B'], ['S', 'NP',
			'S|<A,$,>', 'VP^<S>']]), punary=rng.choice([0, 0.2]),
			pdisc=rng.choice([0, 0.3, 0.8]))
	t = L.markfanout(t)
	words = rng.choice([WORDS, WORDS[:2]])
	return dict(t=t, sent=[rng.choice(words) for _ in T.leaves(t)])


def frags(rng, bank, n):
	res = []
	for _ in range(n):
		a = rng.choice(bank)
		b = rng.choice(list(T.nodes(a['t'])))
		f = renumber(cut(rng, b, rng.choice([0.1, 0.5, 0.9])), a['sent'])
		if f not in res:
			res.append(f)
	return res


def inputs(ctx):
	rng = ctx.rng
	pool = list(ctx.gen('trees'))
	for a in list(ctx.mine(pool))[::1 if ctx.thorough else 4]:
		t = L.markfanout(a['t'])
		x = dict(t=t, sent=['a'] * len(T.leaves(t)))
		yield dict(op='flat', frags=frags(rng, [x], 4))
	for _ in range(ctx.n(900, 15000)):
		kind = rng.choice(['flat', 'flatflat', 'gram', 'gram', 'tsg'])
		bank = [randtree(rng, pool) for _ in range(rng.randint(1, 4))]
		fs = frags(rng, bank, rng.choice([1, 3, 8]))
		if kind == 'flat':
			yield dict(op='flat', frags=fs)
		elif kind == 'flatflat':
			fs = []
			for _ in range(rng.choice([2, 6, 20])):
				f = flatfrag(rng)
				if f not in fs:
					fs.append(f)
			yield dict(op='flat', frags=fs)
		elif kind == 'gram':
			extra = []
			tags = sorted({a['l'] for b in bank for a in T.nodes(b['t'])
					if T.ispre(a)})
			if rng.random() < 0.3:
				for w in rng.sample(['a', 'b', 'Q', '_UNK'], rng.randint(1, 3)):
					extra.append(dict(p=dict(r=[rng.choice(tags), 'Epsilon'],
						yf=[], w=w), w=rng.randint(1, 5)))
			for f in fs:
				f['occ'] = sorted(rng.randrange(4) for _ in range(
						rng.choice([1, 1, 2, 4])))
			yield dict(op='gram', frags=fs, bank=bank, extra=extra)
		else:
			via = rng.choice(['', 'cli', 'bracket'])
			if via == 'bracket' and not all(continuous(f)
					and not any('=' in a for a in f['sent']) for f in fs):
				via = 'cli'
			if all(T.ispre(f['t']) for f in fs):
				via = ''  # grammars without phrasal rules are not summarized
			for f in fs:
				f['w'] = rng.randint(1, 30)
			yield dict(op='tsg', frags=fs, via=via, bank=[], extra=[])


TOKEN = re.compile(r'\(|\)|[^\s()]+')


def parsetpl(s):
	toks = TOKEN.findall(s)
	pos = [0]

	def walk():
		tok = toks[pos[0]]
		pos[0] += 1
		if tok == '(':
			lab = toks[pos[0]]
			pos[0] += 1
			kids = []
			while toks[pos[0]] != ')':
				kids.append(walk())
			pos[0] += 1
			return T.node(lab, kids)
		m = re.match(r'^\{?(\d+)\}?$', tok)
		return T.term(int(m.group(1))) if m else T.node(tok, [])
	res = walk()
	return res if pos[0] == len(toks) else T.node('junk', [])


def tofrac(x, junk):
	if x is None:
		return [0, 1]
	f = Fraction(x).limit_denominator(10 ** 8)
	if abs(float(f) - float(x)) > 1e-12 * abs(x) or f.numerator >= 2 ** 31:
		junk.append(repr(x))
		return [0, 1]
	return [f.numerator, f.denominator]


def execute(inp):
	from discodop import grammar, tree
	strs = [fragstr(f) for f in inp['frags']]
	if inp['op'] == 'flat':
		ids = grammar.UniqueIDs()
		res = []
		for s in strs:
			prods, tpl = grammar.flatten(s, ids)
			res.append(dict(rules=[L.encprod(a) for a in prods],
					tpl=parsetpl(tpl)))
		return dict(flat=res)
	junk = []
	back = dict(zip(strs, inp['frags']))
	if inp['op'] == 'gram':
		gram, tpls, alt, frs = grammar.dopgrammar(
				[T.dec(a['t'], tree.Tree) for a in inp['bank']],
				{s: list(f['occ']) for s, f in zip(strs, inp['frags'])},
				extrarules={L.decprod(a['p']): a['w'] for a in inp['extra']}
					or None)
		rules = [dict(p=L.encprod(a), w=tofrac(w, junk),
				ewe=tofrac(float(b), junk), bon=tofrac(float(c), junk),
				shortest=tofrac(float(d), junk))
				for (a, w), b, c, d in zip(gram, alt['ewe'], alt['bon'],
					alt['shortest'])]
		if any(len(a) != len(gram) for a in alt.values()):
			junk.append('number of weights')
		frs = [dict(back.get(s, dict(t=T.node('?', [T.term(0)]), sent=['a'])),
				occ=list(o)) for s, o in frs]
		return dict(rules=rules, tpl=[parsetpl(a) for a in tpls], frags=frs,
				junk=junk)
	if inp['via']:
		return viacli(inp, junk)
	gram, tpls, alt = grammar.compiletsg({s: f['w']
			for s, f in zip(strs, inp['frags'])})
	if alt != {}:
		junk.append('alternative weights')
	return dict(rules=[dict(p=L.encprod(a), w=tofrac(w, junk))
			for a, w in gram], tpl=[parsetpl(a) for a in tpls], frags=[],
			junk=junk)


def viacli(inp, junk):
	import stubs
	stubs.install()
	from discodop import cli
	brack = inp['via'] == 'bracket'
	with open('frags.txt', 'w', encoding='utf8') as out:
		for f in inp['frags']:
			out.write('%s\t%d\n' % (brackstr(f) if brack else fragstr(f),
					f['w']))
	argv = sys.argv, cli.argv
	sys.argv = cli.argv = ['discodop', 'grammar', 'ptsg', 'frags.txt', 'g']
	try:
		with contextlib.redirect_stdout(io.StringIO()):
			cli.grammar()
	finally:
		sys.argv, cli.argv = argv
	rules = []
	for line in open('g.rules', encoding='utf8'):
		a = line.rstrip('\n').split('\t')
		if not re.match('^[01,]+$', a[-2]):  # bitpar format
			a = line.split()
			p = dict(r=a[1:], yf=[list(range(len(a) - 2))], w='')
			w = a[0]
		else:
			p = dict(r=a[:-2], yf=[[int(c) for c in b]
					for b in a[-2].split(',')], w='')
			w = a[-1]
		rules.append(dict(p=p, w=tofrac(Fraction(w), junk)))
	for line in open('g.lex', encoding='utf8'):
		a = line.rstrip('\n').split('\t')
		for b in a[1:]:
			tag, w = b.split(' ')
			rules.append(dict(p=dict(r=[tag, 'Epsilon'], yf=[], w=a[0]),
					w=tofrac(Fraction(w), junk)))
	with open('g.backtransform', encoding='utf8') as f:
		tpls = [parsetpl(a) for a in f.read().splitlines()]
	return dict(rules=rules, tpl=tpls, frags=[], junk=junk)
