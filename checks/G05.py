"""Grammar files: in the model, merging of sorted files with sums of runs; the
real writer, both readers, merging and summaries on random grammars with
weights of all notations (integers, fractions, decimal, exponent and
hexadecimal floats)."""
import contextlib
import gzip
import io
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import lcfrs as L
MODULES = ['bit', 'containers']
SPEC = 'GramTextTrace'
MODELS = [('MergeSumMC', 'MergeSumMC.cfg')]
MODELS_THOROUGH = [('MergeSumMC', 'MergeSumMCBig.cfg')]
ASSUMPTIONS = ['files that are merged are sorted by rule, word or fragment',
		'labels and words do not contain white space']
LABS = ['A', 'B', 'NP', 'VP_2', '.', '$,', '--', 'A|<B>', 'NP^<S>', 'e', 'é']
WORDS = ['a', 'b', '#LRB#', '#RRB#', 'é', '1', '.', '0/1', '1e5', '%']
YF = {(2, 1): [[[0]]], (3, 1): [[[0, 1]], [[1, 0]], [[0, 1, 0]]],
		(2, 2): [[[0], [0]]], (3, 2): [[[0], [1]], [[0, 1], [0]],
			[[1, 0], [1]]]}


def fan(lab):
	return 2 if lab.endswith('_2') else 1


def weight(rng, big=True):
	"""A random positive weight as Fraction."""
	kind = rng.choice('iiidfbl')
	if kind == 'b' and big:
		return Fraction(rng.choice([10 ** 6, 1234567, 98765432, 2 ** 31]))
	elif kind == 'd':
		return Fraction(rng.randint(1, 31), rng.choice([2, 4, 16]))
	elif kind == 'f' and big:
		return Fraction(rng.random())
	elif kind == 'l' and big:
		return Fraction(rng.choice([1e-7, 2.5e-300, 0.1, 1 / 3, 1e22]))
	return Fraction(rng.randint(1, 200))


def render(rng, w, frac=True):
	"""A notation for w, which must be preserved exactly."""
	opts = []
	if w.denominator == 1:
		opts += ['%d' % w, '%d.0' % w, '%d' % w] + ['%d/1' % w] * frac
		if w % 10 ** 6 == 0:
			opts.append('%de+06' % (w // 10 ** 6))
	elif frac and w.numerator < 10 ** 9 and w.denominator < 10 ** 9:
		opts.append('%d/%d' % (w.numerator, w.denominator))
	if Fraction(float(w)) == w:
		opts += [repr(float(w)), float(w).hex()]
	return rng.choice(opts)


def randgrammar(rng, forgram):
	res = []
	for _ in range(rng.randint(1, 12)):
		n = rng.choice([2, 3, 3]) if forgram else rng.choice([2, 3, 3, 4, 6])
		labs = [rng.choice(LABS) for _ in range(n)]
		if n <= 3:
			yf = rng.choice(YF[n, fan(labs[0])])
			for x in range(1, n):
				need = sum(a.count(x - 1) for a in yf)
				labs[x] = rng.choice([a for a in LABS if fan(a) == need])
		else:
			yf = [list(range(n - 1))]
		res.append(dict(r=labs, yf=yf, w=''))
	if forgram:
		res.insert(0, dict(r=['ROOT', 'NP'], yf=[[0]], w=''))
	used = sorted({b for a in res for b in a['r'] if fan(b) == 1})
	for lab in used + [rng.choice(LABS) for _ in range(3)]:
		if lab == 'ROOT' or fan(lab) == 2:
			continue
		for w in rng.sample(WORDS, rng.randint(1, 3)):
			res.append(dict(r=[lab, 'Epsilon'], yf=[], w=w))
	if forgram and not any(a['r'][0] == 'VP_2' for a in res):
		res.insert(1, dict(r=['VP_2', 'A', 'B'], yf=[[0], [1]], w=''))
	uniq = []
	for a in res:
		if a not in uniq:
			uniq.append(a)
	return uniq


def ensurelhs(g):
	"""The parser needs a rule for every nonterminal."""
	have = {a['r'][0] for a in g}
	for lab in {b for a in g for b in a['r']} - have - {'Epsilon'}:
		g.append(dict(r=[lab, 'Epsilon'], yf=[], w='zz'))
	return g


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(1500, 15000)):
		kind = rng.choice(['write', 'write', 'merge', 'merge', 'info', 'conv'])
		if kind == 'write':
			forgram = rng.random() < 0.7
			bitpar = not forgram and rng.random() < 0.5
			g = [a for a in randgrammar(rng, forgram)
					if not bitpar or monotone(a)]
			if forgram:
				g = ensurelhs(g)
			ints = rng.random() < 0.3
			ws = [Fraction(rng.randint(1, 10 ** rng.randint(1, 9))) if ints
					else weight(rng) for _ in g]
			ints = all(a.denominator == 1 for a in ws)
			yield dict(op='write', bitpar=bitpar, ints=ints, gram=forgram,
					g=[dict(p=p, w=float(w).hex()) for p, w in zip(g, ws)],
					numpy=rng.random() < 0.3)
		elif kind == 'merge':
			what = rng.choice(['rules', 'bitpar', 'lexicon', 'fragments'])
			files = []
			pool = randgrammar(rng, False)
			for _ in range(rng.choice([2, 2, 3, 4])):
				lines = {}
				for p in pool:
					if (p['yf'] == []) != (what == 'lexicon'):
						continue
					if what == 'bitpar' and not monotone(p):
						continue
					for _ in range(rng.choice([0, 1, 1, 1, 2])):
						w = weight(rng, False)
						lines.setdefault(key(p, what), []).append(w)
				files.append([dict(key=k, num=w.numerator, den=w.denominator,
						txt=render(rng, w, what != 'bitpar')) for k in sorted(lines)
						for w in lines[k]])
			yield dict(op='merge', kind=what, files=files,
					gz=rng.random() < 0.3)
		elif kind == 'info':
			what = rng.choice(['rules', 'bitpar'])
			lines = []
			for p in randgrammar(rng, False):
				if p['yf'] and (what == 'rules' or monotone(p)):
					w = Fraction(rng.randint(1, 400), rng.choice([1, 1, 2]))
					txt = render(rng, w, what != 'bitpar')
					if '/' in txt:  # relative frequency: FREQ/TOTAL
						w = Fraction(txt.split('/')[0])
					lines.append(dict(lhs=p['r'][0], num=w.numerator,
						den=w.denominator, kind=what,
						key=key(p, what), txt=txt))
			if rng.random() < 0.7:
				lines.sort(key=lambda a: a['lhs'])
			yield dict(op='info', lines=lines, gz=rng.random() < 0.3)
		else:
			yield dict(op='conv', w=float(weight(rng)).hex())


def monotone(p):
	return p['yf'] in ([], [list(range(len(p['r']) - 1))])


def key(p, what):
	if what == 'rules':
		return '\t'.join(p['r'] + [','.join(''.join(map(str, a))
				for a in p['yf'])])
	elif what == 'bitpar':
		return '\t'.join(p['r'])
	elif what == 'lexicon':
		return p['w'] + '\t' + p['r'][0]
	return '(%s %s)' % (p['r'][0], ' '.join('(%s )' % a for a in p['r'][1:]))


def lines(kind, recs):
	if kind == 'lexicon':
		byword = {}
		for a in recs:
			word, tag = a['key'].split('\t')
			byword.setdefault(word, []).append('%s %s' % (tag, a['txt']))
		return ['%s\t%s\n' % (w, '\t'.join(t))
				for w, t in sorted(byword.items())]
	elif kind == 'bitpar':
		return ['%s\t%s\n' % (a['txt'], a['key']) for a in recs]
	return ['%s\t%s\n' % (a['key'], a['txt']) for a in recs]


def num(txt):
	if txt.startswith('0x'):
		return Fraction(float.fromhex(txt))
	return Fraction(float(txt)).limit_denominator(5000)


def put(name, gz, data):
	with (gzip.open(name, 'wb') if gz else open(name, 'wb')) as out:
		out.write(''.join(data).encode('utf8'))


def execute(inp):
	from discodop import grammar as M, gen
	if inp['op'] == 'conv':
		w = float.fromhex(inp['w'])
		(_, txt), = [a.strip().rsplit('\t', 1) for a in M.writegrammar(
				[((('A', 'B'), ((0, ), )), w)])[0].splitlines()]
		return dict(w=inp['w'], back=M.convertweight(txt).hex(),
				split=M.splitweight(w.hex()).hex())
	elif inp['op'] == 'info':
		name = 'rules' + ('.gz' if inp['gz'] else '')
		put(name, inp['gz'], [a for b in inp['lines']
				for a in lines(b['kind'], [b])])
		buf = io.StringIO()
		with contextlib.redirect_stdout(buf):
			M.grammarstats(name)
		info = []
		for line in buf.getvalue().splitlines()[1:]:
			lab, cnt, freq = line.split('\t')
			info.append([lab, int(cnt), list(num(freq).as_integer_ratio())])
		return dict(info=info)
	elif inp['op'] == 'merge':
		kind = inp['kind']
		ext = '.gz' if inp['gz'] else ''
		names = []
		for n, recs in enumerate(inp['files']):
			names.append('in%d%s' % (n, ext))
			put(names[-1], inp['gz'], lines(kind, recs))
		func, keyf = dict(lexicon=(M.sumlex, lambda x: x.split(None, 1)[0]),
				fragments=(M.sumfrags, lambda x: x.rsplit('\t', 1)[0])).get(
				kind, (M.sumrules, M.stripweight))
		M.merge(names, 'out' + ext, func, keyf)
		with (gzip.open if inp['gz'] else open)('out' + ext, 'rb') as f:
			data = f.read().decode('utf8').splitlines()
		merged = []
		for line in data:
			if kind == 'lexicon':
				word, *tags = line.split('\t')
				for a in tags:
					tag, w = a.split(' ')
					merged.append((word + '\t' + tag, w))
			elif kind == 'bitpar':
				merged.append(tuple(line.split('\t', 1)[::-1]))
			else:
				merged.append(tuple(line.rsplit('\t', 1)))
		return dict(merged=[dict(key=a, num=num(b).numerator,
				den=num(b).denominator) for a, b in merged])
	ws = [float.fromhex(a['w']) for a in inp['g']]
	if inp['numpy']:
		import numpy as np
		ws = list(np.array(ws))
	elif inp['ints']:
		ws = [int(a) for a in ws]
	g = [(L.decprod(a['p']), w) for a, w in zip(inp['g'], ws)]
	rules, lex = M.writegrammar(g, bitpar=inp['bitpar'])

	def hexw(a):
		return float(a).hex()
	rl, ll = [], []
	for line in rules.splitlines():
		f = line.split('\t')
		rl.append([f[1:], hexw(f[0])] if inp['bitpar']
				else [f[:-1], hexw(f[-1])])
	for line in lex.splitlines():
		f = line.split('\t')
		ll.append([f[0], [[a.split(' ')[0], hexw(a.split(' ')[1])]
				for a in f[1:]]])
	xg = []
	if not inp['ints']:
		read = gen.read_bitpar_grammar if inp['bitpar'] else (
				gen.read_lcfrs_grammar)
		if not inp['bitpar'] or all(len(a['p']['r']) <= 3 for a in inp['g']):
			xg = read(io.StringIO(rules), io.StringIO(lex))
		else:
			xg = None
	gram = []
	if inp['gram']:
		from discodop.containers import Grammar
		put('g.rules', False, rules)
		put('g.lex', False, lex)
		gram = [dict(p=a['p'], w=L.frac6(a['w'], inp['g'], a['p']))
				for a in L.grammarrules(Grammar('g.rules', 'g.lex'))]
	return dict(rules=rl, lex=ll, gram=gram,
			gen=[dict(p=L.encprod(a), w=hexw(w)) for a, w in xg]
			if xg is not None else [dict(a, p=dict(a['p'], w={'#LRB#': '(',
				'#RRB#': ')'}.get(a['p']['w'], a['p']['w'])))
				for a in inp['g']])
