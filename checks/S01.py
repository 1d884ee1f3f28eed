"""Searching treebanks and texts: in the model, answers composed from cached and
concurrently computed results are those of a sequential scan, and indexes are
never stale; sessions with the real searchers are compared with the definition."""
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
import fragments as F
MODULES = ['bit', 'containers', '_fragments']
SPEC = {'frag': 'SearchTrace', 'regex': 'RegexTrace'}
MODELS = [('SearchMC', 'SearchMC.cfg'), ('SearchIndex', 'SearchIndex.cfg'),
		('RegexMC', 'RegexMC.cfg')]
MODELS_THOROUGH = [('SearchMC', 'SearchMCBig.cfg'),
		('SearchIndex', 'SearchIndexBig.cfg'), ('RegexMC', 'RegexMCBig.cfg')]
ASSUMPTIONS = ['words contain no parentheses or spaces']
FIELDS = dict(f=-1, bank=[], files=[], inmemory=False, numproc=1, cache=0,
		macros=[], q=[], sub=[], start=0, stop=0, limit=0, nofunc=False,
		nomorph=False, merge=False, idx=[], name='')


def step(k, **kw):
	res = dict(FIELDS, k=k)
	for a in kw:
		if a not in res:
			raise ValueError(a)
	res.update(kw)
	return res


# ----------------------------------------------------------------- treebanks
def labels(rng):
	"""Labels with and without function tags and morphological features,
	listed with these removed."""
	rich = rng.random() < 0.3

	def lab(base):
		func = rng.choice(['', '-SBJ', '-HD']) if rich else ''
		morph = rng.choice(['', '[pl]']) if rich else ''
		return [base + morph + func, base + morph, base + func, base]
	return ([lab(a) for a in rng.choice([['A'], ['A', 'B'], ['NP', 'VP']])],
			[lab(a) for a in rng.choice([['N'], ['N', 'V']])])


def bank(rng, disc, labs, tags, k, like=()):
	res = []
	words = rng.choice([['a', 'b', 'c'], ['a'], ['a', 'é', '.', 'a-b', 'x=y'],
			['a', 'x[y]', '-LRB-', '$', 'b*1']])
	while len(res) < k:
		old = res + list(like)
		if old and rng.random() < 0.4:
			a = rng.choice(old)
			t, sent = a['t'], list(a['sent'])
			if rng.random() < 0.7:
				sent[rng.randrange(len(sent))] = rng.choice(words)
		else:
			t = T.canonical(T.rtree(rng, rng.randint(1, 6),
					[a[0] for a in labs], tags=[a[0] for a in tags],
					punary=rng.choice([0, 0.2]),
					pdisc=rng.choice([0, 0.5]) if disc else 0,
					pflat=rng.choice([0.1, 0.5])))
			if rng.random() < 0.8 and t['l'] != 'ROOT':
				t = T.node('ROOT', [t])
			sent = [rng.choice(words) for _ in T.leaves(t)]
		res.append(dict(t=t, sent=sent))
	return res


def rng_range(rng, n):
	a = rng.choice([0, 0, 1, rng.randint(1, n + 1)])
	b = rng.choice([0, 0, rng.randint(1, n + 2)])
	if b and b < a:
		a, b = b, a
	return a, b


def fragsession(rng):
	exts = rng.choice([['mrg', 'mrg'], ['mrg', 'mrg', 'mrg'], ['dbr', 'dbr'],
			['export', 'export'], ['mrg'], ['dbr'], ['mrg', 'dbr', 'export']])
	disc = any(a != 'mrg' for a in exts)
	labs, tags = labels(rng)
	labs.append(['ROOT'] * 4)
	exp = 'export' in exts

	def rbank(f, like=()):
		res = bank(rng, exts[f] != 'mrg', labs[:-1], tags, rng.randint(1, 4),
				like)
		if exts[f] == 'export':
			for a in res:
				if a['t']['l'] != 'ROOT':
					a['t'] = T.node('ROOT', [a['t']])
		return res
	first = rbank(0)
	banks = [first] + [rbank(f, first) for f in range(1, len(exts))]
	cur = list(banks)
	steps = []
	files, numproc = [], 1

	def rquery():
		pool = [b for f in range(len(exts)) for b in cur[f]
				if disc or exts[f] == 'mrg']
		res = F.frags(rng, [dict(a) for a in pool], rng.choice([1, 1, 1, 2]))
		if rng.random() < 0.1:
			res[0] = dict(res[0], sent=['zz' if w != 'None' else w
					for w in res[0]['sent']])
		if not disc or rng.random() < 0.3:
			new = [a for a in res if cont(a)]
			return new
		return res

	queries = []
	macros = []
	for _ in range(rng.choice([3, 5, 8])):
		if not steps or rng.random() < 0.12:
			files = rng.sample(range(len(exts)), rng.randint(1, len(exts)))
			if rng.random() < 0.7:
				files = list(range(len(exts)))
			macros = [a for a in rquery() for _ in (0, )
					if rng.random() < 0.3]
			numproc = 2 if rng.random() < 0.03 else 1
			steps.append(step('open', files=files, numproc=numproc,
					inmemory=rng.random() < 0.5, macros=macros,
					cache=rng.choice([0, 1, 2, 3, 100])))
		elif rng.random() < 0.1:
			f = rng.randrange(len(exts))
			cur[f] = rbank(f, cur[f])
			steps.append(step('write', f=f, bank=cur[f]))
			steps.append(step('open', files=files, macros=macros,
					inmemory=rng.random() < 0.5, cache=rng.choice([0, 3])))
		if rng.random() < 0.15:
			f = rng.choice(files)
			if rng.random() < 0.3:
				steps.append(step('info', f=f))
			else:
				steps.append(step(rng.choice(['extract', 'extractsents']),
						f=f, idx=[rng.randint(1, len(cur[f]))
							for _ in range(rng.randint(1, 3))],
						nofunc=rng.random() < 0.3, nomorph=rng.random() < 0.3,
						merge=rng.random() < 0.3))
			continue
		if queries and rng.random() < 0.6:
			q = rng.choice(queries)
		else:
			q = macros if macros and rng.random() < 0.5 else rquery()
			if not q:
				continue
			queries.append(q)
		old = [a for a in steps if a['q'] and a['k'] in ('trees', 'sents',
				'brackets', 'counts', 'indices')]
		if old and rng.random() < 0.4:
			a = dict(rng.choice(old[-2:]))
			if not set(a['sub']) <= set(files):
				a['sub'] = []
			if rng.random() < 0.7:
				a['limit'] = rng.choice([0, 0, 1, 2, 3])
			steps.append(a)
			continue
		k = rng.choice(['counts', 'indices', 'breakdown', 'batchcounts',
				'trees', 'trees', 'sents', 'sents', 'brackets', 'batchsents',
				'batchbrackets'])
		qs = [q]
		if k in ('batchsents', 'batchbrackets'):
			qs += [rng.choice(queries) for _ in range(rng.randint(0, 2))]
		elif k in ('breakdown', 'batchcounts'):
			qs = [[a] for a in q]
			if k == 'batchcounts' and rng.random() < 0.3:
				qs.append(qs[0])
		start, stop = rng_range(rng, 4)
		steps.append(step(k, q=qs, start=start, stop=stop,
				limit=0 if k in ('counts', 'indices', 'breakdown',
					'batchcounts') else rng.choice([0, 0, 1, 2, 3]),
				sub=rng.sample(files, rng.randint(1, len(files)))
					if rng.random() < 0.4 else [],
				nofunc=k == 'trees' and rng.random() < 0.3,
				nomorph=k == 'trees' and rng.random() < 0.3,
				merge=k == 'trees' and rng.random() < 0.3))
	return dict(op='frag', exts=exts, disc=disc, banks=banks, steps=steps,
			labs=labs + tags)


def cont(f):
	"""Every position of the fragment belongs to a node with one position."""
	return ('None' not in [w for n, w in enumerate(f['sent'])
			if n not in T.leaves(f['t'])] and all(
			len(a['k']) == 1 or a['k'][0]['i'] < 0 for a in T.nodes(f['t']))
			and ordered(f['t']))


def ordered(t):
	ls = T.leaves(t)
	return ls == sorted(ls) and all(
			T.fanout(T.leaves(a)) == 1 for a in T.nodes(t))


# ---------------------------------------------------------------------- texts
RFIELDS = dict(f=-1, text=[], files=[], inmemory=False, numproc=1, cache=0,
		macros=[], q=[], sub=[], start=0, stop=0, limit=0, ic=False, idx=[],
		final=True)


def rstep(k, **kw):
	res = dict(RFIELDS, k=k)
	for a in kw:
		if a not in res:
			raise ValueError(a)
	res.update(kw)
	return res


def rexpr(rng, chars, depth, tabs):
	k = rng.choice(['set', 'set', 'set', 'seq', 'seq', 'alt', 'star', 'bol',
			'eol', 'cls', 'any']) if depth else 'set'
	e = dict(k=k, cs=[], neg=False, a=[], min=0, max=0, lazy=False)
	if k == 'set':
		e['cs'] = [ord(rng.choice(chars))]
	elif k == 'cls':
		e.update(k='set', cs=sorted({ord(rng.choice(chars))
				for _ in range(2)}))
		if not tabs and rng.random() < 0.3:
			e.update(neg=True, cs=sorted({10} | set(e['cs'])))
	elif k == 'any':
		e.update(k='set', cs=[10], neg=True)
		if tabs:
			e.update(cs=[97], neg=False)
	elif k in ('seq', 'alt'):
		e['a'] = [rexpr(rng, chars, depth - 1, tabs)
				for _ in range(rng.randint(2, 3))]
	elif k == 'star':
		e['a'] = [rexpr(rng, chars, depth - 1, tabs)]
		e['min'], e['max'] = rng.choice([(0, 1), (0, 99), (1, 99), (1, 2)])
		e['lazy'] = rng.random() < 0.3
	return e


def nullable(e):
	if e['k'] == 'set':
		return False
	elif e['k'] == 'seq':
		return all(nullable(a) for a in e['a'])
	elif e['k'] == 'alt':
		return any(nullable(a) for a in e['a'])
	return e['k'] in ('bol', 'eol') or e['min'] == 0 or nullable(e['a'][0])


def rquery(rng, chars, tabs):
	while True:
		e = rexpr(rng, chars, rng.choice([0, 1, 2, 2, 3]), tabs)
		if not nullable(e) and unambiguous(e):
			return e


def unambiguous(e):
	"""Repeat only what matches something."""
	return all(unambiguous(a) for a in e['a']) and not (
			e['k'] == 'star' and nullable(e['a'][0]))


def pattern(e, group='(?:%s)'):
	if e['k'] == 'set':
		if not e['neg'] and len(e['cs']) == 1:
			return re.escape(chr(e['cs'][0])).replace('\\ ', ' ')
		elif e['neg'] and e['cs'] == [10]:
			return '.'
		return '[%s%s]' % ('^' if e['neg'] else '', ''.join(
				'\\n' if a == 10 else re.escape(chr(a)) for a in e['cs']))
	elif e['k'] in ('bol', 'eol'):
		return '^' if e['k'] == 'bol' else '$'
	elif e['k'] == 'alt':
		return group % '|'.join(pattern(a, group) for a in e['a'])
	elif e['k'] == 'seq':
		return ''.join(pattern(a, group) for a in e['a'])
	a = e['a'][0]
	res = pattern(a, group)
	if a['k'] != 'set':
		res = group % res
	return res + {(0, 1): '?', (0, 99): '*', (1, 99): '+', (1, 2): '{1,2}'}[
			e['min'], e['max']] + ('?' if e['lazy'] else '')


def rtext(rng, chars, blank):
	res = []
	for _ in range(rng.choice([1, 2, 3, 4, 4, 6])):
		line = [ord(rng.choice(chars)) for _ in range(rng.randint(1, 7))]
		if line == [32] * len(line):
			line[0] = 97
		while rng.random() < 0.2:
			res.append(rng.choice(blank))
		res.append(line)
	if rng.random() < 0.2:
		res.append(rng.choice(blank))
	return res


def regexsession(rng):
	nf = rng.choice([1, 2, 2, 3])
	chars = rng.choice(['ab', 'ab c', 'aAbB', 'ab.(', 'a\xe9\xe8b', 'a\u65e5 b',
			'a b\U0001f600'])
	# characters between lines must not be matched
	tabs = rng.random() < 0.3
	blank = [[], [9], [9, 9]] if tabs else [[]]
	texts = [rtext(rng, chars, blank) for _ in range(nf)]
	if rng.random() < 0.03:
		texts[0] = []
	finals = [rng.random() < 0.8 or not a or not a[-1] for a in texts]
	cur = list(texts)
	steps, files, queries, macros = [], [], [], []
	ic = rng.random() < 0.3
	for _ in range(rng.choice([3, 5, 8])):
		if not steps or rng.random() < 0.12:
			files = rng.sample(range(nf), rng.randint(1, nf))
			if rng.random() < 0.7:
				files = list(range(nf))
			macros = [rquery(rng, chars, tabs)
					for _ in range(rng.choice([0, 0, 1, 2]))]
			macros = [a for a in macros if pattern(a) == pattern(a).strip()]
			ic = rng.random() < 0.3
			steps.append(rstep('open', files=files, ic=ic, macros=macros,
					numproc=2 if rng.random() < 0.1 else 1,
					inmemory=rng.random() < 0.3,
					cache=rng.choice([0, 1, 2, 3, 100])))
		elif rng.random() < 0.1:
			f = rng.randrange(nf)
			cur[f] = rtext(rng, chars, blank)
			steps.append(rstep('write', f=f, text=cur[f],
					final=rng.random() < 0.8 or not cur[f][-1]))
			steps.append(rstep('open', files=files, ic=ic, macros=macros,
					cache=rng.choice([0, 3]), inmemory=rng.random() < 0.3))
		if rng.random() < 0.15:
			f = rng.choice(files)
			k = sum(any(c not in (9, 32) for c in a) for a in cur[f])
			if rng.random() < 0.5:
				steps.append(rstep('info', f=f))
			elif k:
				steps.append(rstep('extract', f=f, idx=[rng.randint(1, k)
						for _ in range(rng.randint(1, 3))]))
			continue
		if queries and rng.random() < 0.6:
			q = rng.choice(queries)
		else:
			q = rquery(rng, chars, tabs)
			if macros and rng.random() < 0.4:
				q = dict(k='seq', cs=[], neg=False, min=0, max=0, lazy=False,
						a=[q, rng.choice(macros)][::rng.choice([1, -1])])
			queries.append(q)
		old = [a for a in steps if a['k'] in ('sents', 'counts', 'indices')]
		if old and rng.random() < 0.4:
			a = dict(rng.choice(old[-2:]))
			if not set(a['sub']) <= set(files):
				a['sub'] = []
			if a['k'] == 'sents' and rng.random() < 0.7:
				a['limit'] = rng.choice([0, 0, 1, 2, 3])
			steps.append(a)
			continue
		k = rng.choice(['counts', 'indices', 'breakdown', 'batchcounts',
				'sents', 'sents', 'batchsents'])
		qs = [q]
		if k in ('batchcounts', 'batchsents'):
			qs += [rng.choice(queries) for _ in range(rng.randint(0, 5))]
		start, stop = rng_range(rng, 5)
		steps.append(rstep(k, q=qs, start=start, stop=stop,
				limit=rng.choice([0, 0, 1, 2, 3]) if 'sents' in k else 0,
				sub=rng.sample(files, rng.randint(1, len(files)))
					if rng.random() < 0.4 else []))
	return dict(op='regex', texts=texts, finals=finals, steps=steps)


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(250, 5000)):
		yield fragsession(rng)
	for _ in range(ctx.n(200, 4000)):
		yield regexsession(rng)


# ------------------------------------------------------------------ execution
def esc(w):
	return w


def readtree(s):
	"""Independent reader of a tree with numbered leaves."""
	sent, stack = {}, [[]]
	toks = re.findall(r'[()]|[^ ()]+', s)
	for n, tok in enumerate(toks):
		if tok == '(':
			stack.append([])
		elif tok == ')':
			a = stack.pop()
			stack[-1].append(T.node(a[0], a[1:]))
		elif toks[n - 1] == '(':
			stack[-1].append(tok)
		else:
			p, tok = tok.split('=', 1)
			sent[int(p)] = tok
			stack[-1].append(T.term(int(p)))
	if len(stack) != 1 or len(stack[0]) != 1:
		raise ValueError('not a tree: %r' % s)
	return stack[0][0], sent


def readbracket(s):
	cnt = [-1]

	def num(m):
		cnt[0] += 1
		return ' %d=%s)' % (cnt[0], m.group(1))
	return readtree(re.sub(r' ([^ ()]*)\)', num, s))


def tokens(sent, chars):
	"""The tokens to which these characters belong, -1: not whole tokens"""
	chars, res, p = set(chars), [], 0
	left = set(chars)
	for n, w in enumerate(sent):
		span = set(range(p, p + len(w) + (n < len(sent) - 1)))
		p += len(w) + 1
		if span & chars:
			res.append(n if span <= chars else -1)
			left -= span
	return res if not left else res + [-1]


def highlighted(tree, high):
	"""The node of which exactly all parts are highlighted, as path; or [-1]"""
	ids = {id(a) for a in high if not isinstance(a, int)}

	def walk(a, p):
		if id(a) in ids:
			return a, p
		if isinstance(a[0], int):
			return None
		for n, b in enumerate(a):
			r = walk(b, p + [n + 1])
			if r:
				return r
	r = walk(tree, [])
	if r is None:
		return [-1]
	want = {id(a) for a in r[0].subtrees()}
	leaves = sorted(a for a in high if isinstance(a, int))
	return r[1] if want == ids and leaves == sorted(r[0].leaves()) else [-1]


def execute(inp):
	tmp = tempfile.mkdtemp(dir='.')
	try:
		return globals()[inp['op'] + 'run'](inp, tmp)
	finally:
		shutil.rmtree(os.path.abspath(tmp))


def writebank(fn, bank, ext):
	from discodop.treebank import writetree
	from discodop.tree import ParentedTree
	with open(fn, 'w', encoding='utf8') as out:
		for n, b in enumerate(bank, 1):
			if ext == 'mrg':
				out.write(F.brackstr(b) + '\n')
			else:
				out.write(writetree(T.dec(b['t'], ParentedTree), b['sent'],
						str(n), dict(dbr='discbracket').get(ext, ext)))


def fragrun(inp, tmp):
	from discodop import treesearch
	names = [os.path.join(tmp, 'bank%d.%s' % (n, a))
			for n, a in enumerate(inp['exts'])]
	for fn, b, e in zip(names, inp['banks'], inp['exts']):
		writebank(fn, b, e)
	number = {a: n for n, a in enumerate(names)}
	searcher, res, macros = None, [], []
	for s in inp['steps']:
		err, r = '', []
		try:
			if s['k'] == 'write':
				writebank(names[s['f']], s['bank'], inp['exts'][s['f']])
			elif s['k'] == 'open':
				if searcher is not None:
					searcher.pool.shutdown()
					searcher.close()
					searcher = None
				treesearch.CACHESIZE = s['cache']
				mfile = None
				macros = [render(a, inp, range(len(names))) for a in s['macros']]
				if macros:
					mfile = os.path.join(tmp, 'macros')
					with open(mfile, 'w', encoding='utf8') as out:
						out.writelines('m%d=%s\n' % (n, a)
								for n, a in enumerate(macros))
				searcher = treesearch.FragmentSearcher(
						[names[a] for a in s['files']], macros=mfile,
						numproc=s['numproc'], inmemory=s['inmemory'])
			else:
				r = query(searcher, s, names, number, macros, inp)
		except Exception as e:
			err = '%s: %s' % (type(e).__name__, e)
		res.append(dict(err=err, res=r))
	if searcher is not None:
		searcher.pool.shutdown()
		searcher.close()
	return dict(steps=res)


def writetext(fn, text, final):
	with open(fn, 'w', encoding='utf8', newline='') as out:
		out.write('\n'.join(''.join(map(chr, a)) for a in text))
		if final and text:
			out.write('\n')


def regexrun(inp, tmp):
	from discodop import treesearch
	names = [os.path.join(tmp, 'text%d.txt' % n)
			for n, a in enumerate(inp['texts'])]
	for fn, b, e in zip(names, inp['texts'], inp['finals']):
		writetext(fn, b, e)
	number = {a: n for n, a in enumerate(names)}
	searcher, res, macros = None, [], []
	for s in inp['steps']:
		err, r = '', []
		try:
			if s['k'] == 'write':
				writetext(names[s['f']], s['text'], s['final'])
			elif s['k'] == 'open':
				if searcher is not None:
					searcher.pool.shutdown()
					searcher.close()
					searcher = None
				treesearch.CACHESIZE = s['cache']
				mfile = None
				macros = s['macros']
				if macros:
					mfile = os.path.join(tmp, 'macros')
					with open(mfile, 'w', encoding='utf8') as out:
						out.writelines('m%d=%s\n' % (n, pattern(a))
								for n, a in enumerate(macros))
				searcher = treesearch.RegexSearcher(
						[names[a] for a in s['files']], macros=mfile,
						numproc=s['numproc'], inmemory=s['inmemory'],
						ignorecase=s['ic'])
			else:
				r = rquery_(searcher, s, names, number, macros)
		except Exception as e:
			err = '%s: %s' % (type(e).__name__, e)
		res.append(dict(err=err, res=r))
	if searcher is not None:
		searcher.pool.shutdown()
		searcher.close()
	return dict(steps=res)


def rsent(sentno, sent, high1, high2):
	return dict(n=int(sentno), s=[ord(a) for a in sent],
			m=sorted(set(high1) | set(high2)))


def rquery_(searcher, s, names, number, macros):
	k = s['k']
	if k == 'info':
		a = searcher.getinfo(names[s['f']])
		return [int(a.len), int(a.numwords)]
	elif k == 'extract':
		return [[ord(b) for b in a] for a in searcher.extract(names[s['f']],
				s['idx'], sents=True)]
	qs = []
	for n, q in enumerate(s['q']):
		group = ['(?:%s)', '(%s)'][(s['start'] + s['stop'] + n) % 2]
		if macros and q['k'] == 'seq' and any(a in macros for a in q['a']):
			qs.append(''.join('{m%d}' % macros.index(a) if a in macros
					else pattern(a, group).replace('{1,2}', '{{1,2}}')
					for a in q['a']))
		else:
			x = pattern(q, group)
			if q['k'] == 'alt':  # no need for parentheses
				x = x[len(group) - 3:-1] if n % 2 else x
			qs.append(x.replace('{1,2}', '{{1,2}}') if macros else x)
	kw = dict(subset=[names[a] for a in s['sub']] or None,
			start=s['start'] or None, end=s['stop'] or None)
	lim = s['limit'] or None
	if k in ('counts', 'indices'):
		return [[number[a], [int(c) for c in b] if k == 'indices' else int(b)]
				for a, b in searcher.counts(qs[0], indices=k == 'indices',
					**kw).items()]
	elif k == 'breakdown':
		return [[number[a], [[[ord(d) for d in c], int(b[c])]
				for c in sorted(b)]] for a, b in searcher.counts(qs[0],
					breakdown=True, **kw).items()]
	elif k == 'batchcounts':
		return [[number[a], [int(c) for c in b]]
				for a, b in searcher.batchcounts(qs, **kw)]
	elif k == 'sents':
		return [dict(rsent(*b), f=number[a])
				for a, *b in searcher.sents(qs[0], maxresults=lim, **kw)]
	elif k == 'batchsents':
		return [dict(f=number[a], r=[rsent(*c) for c in b])
				for a, b in searcher.batchsents(qs, maxresults=lim, **kw)]
	raise ValueError(k)


def render(f, inp, files):
	disc = any(inp['exts'][a] != 'mrg' for a in files)
	return (F.brackstr if not disc or cont(f) else F.fragstr)(f)


def query(searcher, s, names, number, macros, inp):
	k = s['k']
	if k == 'info':
		a = searcher.getinfo(names[s['f']])
		return [int(x) for x in (a.len, a.numwords, a.numnodes, a.maxnodes)]
	elif k in ('extract', 'extractsents'):
		r = searcher.extract(names[s['f']], s['idx'], nofunc=s['nofunc'],
				nomorph=s['nomorph'], mergedisc=s['merge'],
				sents=k == 'extractsents')
		if k == 'extractsents':
			return [a.split(' ') for a in r]
		return [dict(t=T.enc(a), s=b) for a, b in r]
	qs = []
	for q in s['q']:
		q = [render(f, inp, range(len(names))) for f in q]
		qs.append('\n'.join('{m%d}' % macros.index(a) if a in macros else a
				for a in q))
	kw = dict(subset=[names[a] for a in s['sub']] or None,
			start=s['start'] or None, end=s['stop'] or None)
	lim = s['limit'] or None
	if k in ('counts', 'indices'):
		return [[number[a], [int(c) for c in b] if k == 'indices' else int(b)]
				for a, b in searcher.counts(qs[0], indices=k == 'indices',
					**kw).items()]
	elif k == 'breakdown':
		r = searcher.counts('\n'.join(qs), breakdown=True, **kw)
		return [[number[a], [int(b[c]) if c in b else -1 for c in qs]]
				for a, b in r.items()]
	elif k == 'batchcounts':
		return [[number[a], [int(c) for c in b]]
				for a, b in searcher.batchcounts(qs, **kw)]
	elif k == 'trees':
		return [dict(f=number[a], n=int(b), t=T.enc(t), s=c,
					at=highlighted(t, high))
				for a, b, t, c, high in searcher.trees(qs[0], maxresults=lim,
					nofunc=s['nofunc'], nomorph=s['nomorph'],
					mergedisc=s['merge'], **kw)]
	elif k in ('sents', 'brackets'):
		return [sentres(number[a], b, k == 'brackets', searcher.disc)
				for a, *b in searcher.sents(qs[0], maxresults=lim,
					brackets=k == 'brackets', **kw)]
	elif k in ('batchsents', 'batchbrackets'):
		return [dict(f=number[a], r=[sentres(number[a], c,
				k == 'batchbrackets', searcher.disc) for c in b])
				for a, b in searcher.batchsents(qs, maxresults=lim,
					brackets=k == 'batchbrackets', **kw)]
	raise ValueError(k)


def sentres(f, x, brackets, disc):
	n, sent, m1, m2 = x
	res = dict(f=f, n=int(n))
	if brackets:
		read = readtree if disc else readbracket
		t, sent = read(sent)
		m, msent = read(m1)
		res.update(t=t, s=[sent[a] for a in sorted(sent)], m=m,
				ms=[msent[a] for a in sorted(msent)])
	else:
		sent = sent.split(' ')
		res.update(s=sent, m1=tokens(sent, m1), m2=tokens(sent, m2))
	return res


def nontrivial(inp, out):
	return any(a.get('res') for a in out.get('steps', []))
