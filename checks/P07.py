"""Compiled grammars: histories of reading, adding rules, switching weights,
masking, counting, and copying; after each step the contents of the real
object are compared with the state of the specification."""
import gzip
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import charts as C
MODULES = ['bit', 'containers', 'vfgrammar']
SPEC = 'GrammarTrace'
MODELS = [('GrammarMC', 'GrammarMC.cfg')]
MODELS_THOROUGH = [('GrammarMC', 'GrammarMCBig.cfg'),
		('GrammarMC', 'GrammarMCBatch.cfg')]
ASSUMPTIONS = ['weights are multiples of 1/8; weights of alternative models '
		'are multiples of 1/1024']
ODD = ['-X', 'e.1', '0', ':', 'Ü', 'A@1', 'A|<x>', 'NP-SBJ/Nom^S', '1', ',',
		'-LRB-', '$.']
ODDWORDS = ['-LRB-', 'a b', '#', '1', 'É', "''", '(', '\\', 'a/b']


def rename(rng, g, start, fmt):
	"""Unusual labels and words."""
	names = {a: a for a in g['fan']}
	names['R'] = start
	pool = [a for a in ODD if a != start and not (fmt == 'bitpar'
			and a in '01,')]
	rng.shuffle(pool)
	for a in names:
		if a != 'R' and rng.random() < 0.3 and pool:
			names[a] = pool.pop()
	words = {a['word']: a['word'] for a in g['lex']}
	for a in words:
		if rng.random() < 0.2:
			words[a] = rng.choice(ODDWORDS) + a
	return names, words


def flatten(g, names, words):
	rules = {}
	for a in g['bin']:
		rules[a['no']] = dict(l=names[a['l']], r=[names[a['r1']],
				names[a['r2']]], yf=a['yf'])
	for a in g['un']:
		rules[a['no']] = dict(l=names[a['l']], r=[names[a['r1']]],
				yf=[[0]] * g['fan'][a['l']])
	lex = {}
	for a in g['lex']:
		lex.setdefault(words[a['word']], []).append(names[a['l']])
	return [rules[a] for a in sorted(rules)], sorted(lex.items())


def newtext(rng, rules, lex, scale, frac=1.0):
	"""Part of the rules and lexicon, with random weights."""
	rules = [a for a in rules if rng.random() < frac]
	lex = [a for a in lex if rng.random() < frac]
	return dict(rules=[dict(a, w=rng.choice([1, 1, 2, 3, 5, 8, 12]))
				for a in rules],
			lex=[dict(word=w, tags=[dict(l=t, w=rng.choice([1, 2, 3, 8]))
				for t in tags]) for w, tags in lex])


def damage(rng, text, start):
	"""Something that a grammar must not have."""
	kind = rng.choice(['lhsfan', 'rhsfan', 'zero', 'start', 'epsilon', 'arity',
			'symbol', 'unused', 'word', 'negative', 'tagzero', 'unyf', 'tagfan'])
	if not text['rules'] or not text['lex']:
		return
	r = rng.choice(text['rules'])
	if kind == 'lhsfan':
		text['rules'].append(dict(r, yf=r['yf'] + [[0]]))
	elif kind == 'rhsfan':
		yf = [list(a) for a in r['yf']]
		yf[rng.randrange(len(yf))].append(rng.randrange(len(r['r'])))
		text['rules'].append(dict(r, yf=yf))
	elif kind == 'zero':
		r['w'] = 0
	elif kind == 'negative':
		r['w'] = -1
	elif kind == 'start':
		r['r'][-1:] = [start]
	elif kind == 'epsilon':
		if rng.random() < 0.5:
			r['r'][-1:] = ['Epsilon']
		else:
			r['l'] = 'Epsilon'
	elif kind == 'arity':
		r['r'] = rng.choice([r['r'] + ['A', 'A'], []])
	elif kind == 'symbol':
		r['yf'] = [list(a) for a in r['yf']]
		r['yf'][0][-1] = 2
	elif kind == 'unyf':
		r['yf'] = [[1 - len(r['r']) // 2 for b in a] for a in r['yf']]
	elif kind == 'unused':
		r['r'] = r['r'][:-1] + ['unknown']
	elif kind == 'word':
		text['lex'].append(rng.choice(text['lex']))
	elif kind == 'tagzero':
		rng.choice(rng.choice(text['lex'])['tags'])['w'] = 0
	elif kind == 'tagfan':
		fan = [a['l'] for a in text['rules'] if len(a['yf']) > 1]
		if fan:
			text['lex'].append(dict(word='zz', tags=[
					dict(l=rng.choice(fan), w=1)]))


def copy(text):
	return dict(rules=[dict(a, r=list(a['r'])) for a in text['rules']],
			lex=[dict(word=a['word'], tags=[dict(b) for b in a['tags']])
				for a in text['lex']])


def inputs(ctx):
	rng = ctx.rng
	for n in range(ctx.n(1500, 12000)):
		fmt = rng.choice(['tuples', 'tuples', 'plcfrs', 'plcfrs', 'bitpar'])
		disc = fmt != 'bitpar' and rng.random() < 0.6
		g = C.grammar(rng, disc=disc, mixed=rng.choice([0, 0.3, 0.6]),
				nl=6 if n % 10 == 9 else rng.randint(1, 5))
		start = rng.choice(['R', 'R', 'ROOT', 'top', '-S', 'e'])
		names, words = rename(rng, g, start, fmt)
		rules, lex = flatten(g, names, words)
		if fmt == 'tuples' or rng.random() < 0.7:  # file starts with start label
			rules.sort(key=lambda a: a['l'] != start)
		scale = rng.choice([1, 1, 8])
		text = newtext(rng, rules, lex, scale)
		dup = fmt != 'tuples' and rng.random() < 0.3
		if dup:
			for a in rng.sample(text['rules'], min(2, len(text['rules']))):
				text['rules'].insert(rng.randint(0, len(text['rules'])),
						dict(a, w=rng.randint(1, 5)))
			e = rng.choice(text['lex'])
			e['tags'].append(dict(rng.choice(e['tags']), w=1))
		backs = []
		if not dup and rng.random() < 0.4:
			backs = ['(F%d)' % m for m in range(
					rng.randint(0, len(text['rules'])))] or ['(F)']
		text = copy(text)
		if rng.random() < 0.2:
			damage(rng, text, start)
		if fmt == 'tuples' and len({a['word'] for a in text['lex']}
				) < len(text['lex']):
			continue
		if fmt == 'bitpar' and any(a['yf'] != [[0, 1]][:1] and len(a['r']) == 2
				or a['yf'] != [[0]] and len(a['r']) == 1
				or len(a['r']) not in (1, 2) for a in text['rules']):
			continue
		if fmt == 'tuples' and any(len(a['r']) not in (1, 2)
				or a['r'] == ['Epsilon'] for a in text['rules']):
			continue
		distinct = {(a['l'], tuple(a['r']), str(a['yf'])) for a in text['rules']}
		dlex = {(a['word'], b['l']) for a in text['lex'] for b in a['tags']}
		models = []
		if rng.random() < 0.5:
			for a in ['ewe', 'bon'][:rng.randint(1, 2)]:
				models.append([a, [rng.randint(1, 1024) for _ in
						range(len(distinct) + len(dlex))]])
		ops = [dict(op='new', text=text)]
		count = len(distinct)
		known = [(a['l'], list(a['r']), a['yf']) for a in text['rules']]
		added, hist = False, rng.randint(0, 6)
		for _ in range(hist):
			op = rng.choice(['switch', 'switch', 'mask', 'incr', 'add', 'add',
					'bin', 'pickle', 'ruleno', 'words', 'rulemap', 'map'])
			if op == 'switch':
				ops.append(dict(op=op, name=rng.choice(['default'] + (
						[] if added else [a for a, _ in models])),
						logp=rng.random() < 0.5))
			elif op == 'mask':
				clear = rng.random() < 0.2
				ops.append(dict(op=op, clear=clear, nos=[] if clear else
						rng.sample(range(count), rng.randint(0, count))))
			elif op == 'incr':
				ops.append(dict(op=op, no=rng.randrange(count),
						k=scale * rng.randint(1, 4)))
			elif op == 'add':
				if fmt == 'bitpar' or rng.random() < 0.4:
					more, mlex = rules, lex
				else:
					g2 = C.grammar(rng, disc=disc, nl=rng.randint(1, 3))
					names2 = {a: names[a] if g['fan'].get(a) == g2['fan'][a]
							else 'n' + a for a in g2['fan']}
					more, mlex = flatten(g2, names2, {w: w for w in C.WORDS})
				t = copy(newtext(rng, more, mlex, scale,
						rng.choice([0.3, 0.7, 1])))
				if rng.random() < 0.1:
					damage(rng, t, start)
				if fmt == 'bitpar' and any(len(a['yf']) > 1
						or a['yf'] not in ([[0]], [[0, 1]])
						or len(a['yf'][0]) != len(a['r']) for a in t['rules']):
					continue
				ops.append(dict(op=op, text=t, backs=['(N%d)' % m for m in range(
						rng.randint(0, len(t['rules'])))] if backs else []))
				distinct |= {(a['l'], tuple(a['r']), str(a['yf']))
						for a in t['rules']}
				count = len(distinct)
				known += [(a['l'], list(a['r']), a['yf']) for a in t['rules']]
				added = True
			elif op == 'ruleno':
				a, b, c = rng.choice(known)
				if rng.random() < 0.4:
					a, b = rng.choice([(rng.choice(known)[0], b),
							(a, b[::-1]), ('nolabel', b), (a, b[:-1] + ['x'])])
				if len(b) in (1, 2):
					ops.append(dict(op=op, r=dict(l=a, r=b, yf=c)))
			elif op == 'words':
				ops.append(dict(op=op))
			else:
				labels = sorted({x for a, b, _c in known for x in [a] + b}
						| {b['l'] for x in ops if 'text' in x
							for a in x['text']['lex'] for b in a['tags']}
						| {start})
				if len({(a.split('@')[0], len(c)) for a, _b, c in known}
						| {(start, 1)}) > len({a.split('@')[0] for a in labels
						if a in {x for x, _b, _c in known} or a == start}):
					continue
				mp = [[a, a.split('@')[0] if '@' in a else a] for a in labels]
				dmp = dict(mp)
				if fmt == 'bitpar' or any(len(b) not in (1, 2)
						for _a, b, _c in known):
					continue
				coarse = dict(rules=[], lex=[dict(word='w%d' % m, tags=[
						dict(l=a, w=1)]) for m, a in enumerate(sorted(
						{b['l'] for x in ops if 'text' in x
						for a in x['text']['lex'] for b in a['tags']}))])
				for a in coarse['lex']:
					a['tags'][0]['l'] = dmp[a['tags'][0]['l']]
				seen = set()
				for a, b, c in known:
					x = (dmp[a], tuple(dmp[d] for d in b), str(c))
					if x not in seen:
						seen.add(x)
						coarse['rules'].append(dict(l=x[0], r=list(x[1]), yf=c, w=1))
				rng.shuffle(coarse['rules'])
				if op == 'map':
					never = rng.choice(['', 'A', '@', 'q$'])
					mp = [[a, '' if never and never.strip('$') in a
							and (never != 'q$' or a.endswith('q')) else b]
							for a, b in mp]
					ops.append(dict(op=op, map=mp, never=never, coarse=coarse,
							part=rng.random() < 0.5))
				else:
					ops.append(dict(op=op, map=mp, coarse=coarse))
		yield dict(kind='grammar', fmt=fmt, start=start, text=text, backs=backs,
				models=models, ops=ops, scale=scale, nl=rng.random() < 0.8,
				gz=rng.random() < 0.2, wfmt=rng.choice(
				['g', 'g', 'float', 'hex', 'frac', 'exp']))


def weight(w, scale, fmt):
	x = w / scale
	if fmt == 'hex':
		return x.hex()
	elif fmt == 'frac' and scale == 1:
		return '%d/100' % w
	elif fmt == 'exp':
		return '%e' % x
	elif fmt == 'float':
		return repr(x)
	return '%g' % x


def render(text, bitpar, scale, wfmt):
	rules, lex = [], []
	for a in text['rules']:
		w = weight(a['w'], scale, wfmt)
		if bitpar:
			rules.append('\t'.join([w, a['l']] + a['r']))
		else:
			rules.append('\t'.join([a['l']] + a['r'] + [
					','.join(''.join(map(str, b)) for b in a['yf']), w]))
	for a in text['lex']:
		lex.append('\t'.join([a['word']] + ['%s %s' % (
				b['l'], weight(b['w'], scale, wfmt)) for b in a['tags']]))
	return rules, lex


def execute(inp):
	import pickle
	import shutil
	import tempfile
	import numpy as np
	from discodop import vfgrammar
	from discodop.containers import Grammar
	tmp = tempfile.mkdtemp(prefix='vf_p07_', dir='/tmp')
	ext = '.gz' if inp['gz'] else ''
	rulesfile, lexfile = tmp + '/g.rules' + ext, tmp + '/g.lex' + ext
	weights = {a: np.array(b, dtype='d') / 1024 for a, b in inp['models']}
	probs = None
	if weights:
		probs = tmp + '/g.probs.npz'
		np.savez_compressed(probs, **weights)
	scale = inp['scale']
	back = inp['backs'] or None

	def write(name, lines):
		data = '\n'.join(lines)
		if inp['nl'] and lines:
			data += '\n'
		with (gzip.open if inp['gz'] else open)(name, 'wb') as out:
			out.write(data.encode('utf8'))

	def describe(g):
		d = vfgrammar.dump(g)
		for a in d['rules'] + d['lex']:
			a['c'] = integral(a['c'] * scale)
		d['mass'] = [integral(a * scale) for a in d['mass']]
		d['start'], d['model'], d['logp'] = g.start, g.currentmodel, g.logprob
		d['back'] = [a or '' for a in g.backtransform or []]
		d['sums'] = bool(g.testgrammar(epsilon=1e-9)[0])
		d['listing'] = []
		for n in range(g.numrules):
			m = re.match(r'^[0-9.]+ (\S+) => (\S+)(?: (\S+))?\s+([01,]+)\s+'
					r'([0-9.e+]+)/([0-9.e+]+) \[([0-9]+)\]$', g.rulestr(n))
			if m is None:
				raise ValueError('listing: %r' % g.rulestr(n))
			d['listing'].append(dict(l=m.group(1), r=[m.group(2)] + (
					[m.group(3)] if m.group(3) else []), no=int(m.group(7)),
					yf=[[int(b) for b in a] for a in m.group(4).split(',')],
					c=integral(float(m.group(5)) * scale),
					mass=integral(float(m.group(6)) * scale)))
		return d

	def integral(x):
		return int(x) if x == int(x) else -1

	def coarsegrammar(op):
		rules, lex = render(op['coarse'], False, 1, 'g')
		write(tmp + '/c.rules' + ext, rules)
		write(tmp + '/c.lex' + ext, lex)
		return Grammar(tmp + '/c.rules' + ext, tmp + '/c.lex' + ext,
				start=inp['start'])

	def apply(g, op):
		name = op['op']
		if name == 'new':
			if inp['fmt'] == 'tuples':
				return Grammar([((tuple([a['l']] + a['r']), tuple(
						tuple(b) for b in a['yf'])), a['w'] / scale)
						for a in op['text']['rules']] + [
						(((b['l'], 'Epsilon'), (a['word'], )), b['w'] / scale)
						for a in op['text']['lex'] for b in a['tags']],
						start=inp['start'], altweights=probs or {},
						backtransform=list(back) if back else None)
			rules, lex = render(op['text'], inp['fmt'] == 'bitpar', scale,
					inp['wfmt'])
			write(rulesfile, rules)
			write(lexfile, lex)
			return Grammar(rulesfile, lexfile, start=inp['start'],
					altweights=probs or weights,
					backtransform=list(back) if back else None)
		elif name == 'add':
			rules, lex = render(op['text'], g.bitpar, scale, inp['wfmt'])
			g.addrules(*[(''.join(a + '\n' for a in x)).encode('utf8')
					for x in (rules, lex)], op['backs'] if back else None)
		elif name == 'switch':
			g.switch(op['name'], logprob=op['logp'])
		elif name == 'mask':
			g.setmask(None if op['clear'] else op['nos'])
		elif name == 'incr':
			g.incrementrulecount(op['no'], op['k'] // scale)
		elif name == 'pickle':
			return pickle.loads(pickle.dumps(g, protocol=-1))
		elif name == 'bin':
			g.tobinfile(tmp + '/g.g')
			kwargs = dict(altweights=probs) if probs else {}
			return Grammar.frombinfile(tmp + '/g.g', rulesfile, lexfile,
					backtransform=g.backtransform, **kwargs)
		return g

	def query(g, op):
		name = op['op']
		if name == 'ruleno':
			try:
				return g.getruleno(tuple([op['r']['l']] + op['r']['r']),
						tuple(tuple(a) for a in op['r']['yf']))
			except KeyError:
				return -1
		elif name == 'words':
			return dict(words=g.getwords(), probs=[
					[w, [vfgrammar.frac(p, g.logprob) for p in g.getlexprobs(w)]]
					for w in g.getwords() + ['nosuchword']])
		coarse = coarsegrammar(op)
		if name == 'rulemap':
			g.getrulemapping(coarse, re.compile('@.*$'))
			return [list(a) for a in g.rulemapping]
		never = re.compile(op['never']) if op['never'] else None
		if op['part']:  # in two steps
			g.getmapping(coarse, re.compile('@.*$'), never)
			g.getmapping(coarse, re.compile('@.*$'), never,
					startidx=g.nonterminals // 2)
		else:
			g.getmapping(coarse, re.compile('@.*$'), never)
		return vfgrammar.map(g, coarse)

	steps, g = [], None
	try:
		for op in inp['ops']:
			if op['op'] in ('ruleno', 'words', 'rulemap', 'map'):
				try:
					steps.append(dict(d=query(g, op), err=''))
				except Exception as err:
					steps.append(dict(d='', err=type(err).__name__))
				continue
			try:
				g = apply(g, op)
				steps.append(dict(d=describe(g), err=''))
			except Exception as err:
				steps.append(dict(d='', err=type(err).__name__, msg=str(err)[:80]))
				break
	finally:
		shutil.rmtree(tmp)
	return dict(steps=steps)


def nontrivial(inp, out):
	return len(inp['ops']) > 2
