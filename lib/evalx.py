"""Sessions of the evaluator for checks E02 and E03: generation of gold and
candidate trees and parameters, and running the real evaluator on them."""
import copy
import os
import re
import sys
import tempfile
import trees as T
import formats

PHR = ['S', 'NP', 'VP', 'PP']
TAGS = ['N', 'V', 'D', ',', '.']
FUNCS = ['', '', '', 'SBJ', 'TMP', 'SBJ-TMP', 'HD']
EQLS = [[], [], [['NP', 'PP']], [['NP', 'PP'], ['VP', 'PP']],
		[['VP', 'VP2'], ['X', 'Y']], [['NP', 'PP'], ['PP', 'VP']],
		[['X', 'NP'], ['NP', 'PP'], ['PP', 'S'], ['S', 'VP']],
		[['VP', 'Q1'], ['Q1', 'Q2'], ['Q3', 'Q2'], ['Q3', 'NP']]]


def deco(rng, d, pf):
	"""Add function tags."""
	if d['i'] >= 0:
		return dict(d, f=[], h=False)
	f = rng.choice(FUNCS) if rng.random() < pf else ''
	return dict(d, k=[deco(rng, c, pf) for c in d['k']],
			f=f.split('-') if f else [], h=False)


def heads(rng, d, dele):
	"""Mark one child of every constituent as head, not a deleted one."""
	if d['i'] >= 0 or T.ispre(d):
		return d
	kids = [heads(rng, c, dele) for c in d['k']]
	ok = [n for n, c in enumerate(kids)
			if any(a not in dele for a in T.leaves(c))] or [0]
	ok = rng.choice(ok)
	return dict(d, k=[dict(c, h=n == ok) for n, c in enumerate(kids)])


def edit(rng, t, labs, tags):
	"""A random change to structure, labels or tags of t."""
	t = copy.deepcopy(t)
	for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
		phr = [a for a in T.nodes(t) if not T.ispre(a)]
		a = rng.choice(phr)
		kind = rng.choice('dirspm')
		if kind == 'r':
			b = rng.choice(phr)
			if b is not t:
				b['l'] = rng.choice(labs)
		elif kind == 'd':
			n = rng.randrange(len(a['k']))
			if not T.ispre(a['k'][n]):
				a['k'][n:n + 1] = a['k'][n]['k']
		elif kind == 'i':
			x = rng.randrange(len(a['k']))
			y = rng.randint(x + 1, len(a['k']))
			a['k'][x:y] = [dict(T.node(rng.choice(labs), a['k'][x:y]), f=[], h=False)]
		elif kind == 's':
			b = rng.choice([b for b in T.nodes(t) if T.ispre(b)])
			b['l'] = rng.choice(tags)
		elif kind == 'p':
			b = rng.choice(list(T.nodes(t)))
			b['f'] = rng.choice([[], ['SBJ'], ['TMP', 'SBJ']])
		elif len(a['k']) > 1:  # move a child elsewhere
			c = a['k'].pop(rng.randrange(len(a['k'])))
			below = {id(x) for x in T.nodes(c)}
			b = rng.choice([b for b in T.nodes(t) if not T.ispre(b)
					and id(b) not in below])
			b['k'].append(c)
	return t


def without(t, gone):
	"""Remove tokens and renumber."""
	keep = [a for a in sorted(T.leaves(t)) if a not in gone]
	new = {a: n for n, a in enumerate(keep)}

	def go(d):
		if d['i'] >= 0:
			return dict(d, i=new[d['i']]) if d['i'] in new else None
		kids = [c for c in map(go, d['k']) if c is not None]
		return dict(d, k=kids) if kids else None
	return go(t)


def params(rng, cli=False):
	p = dict(LABELED=rng.choice([1, 1, 1, 0]), DISC=rng.choice([0, 0, 0, 1]),
			DRP=rng.choice([0, 0, 0, 1]), CUT=rng.choice([0, 2, 3, 5, 40]),
			DL=rng.choice([[], ['ROOT'], ['ROOT'], ['ROOT', ','],
				['ROOT', ',', '.'], ['ROOT', ',', 'VP'], ['S', 'D', '.']]),
			DLL=rng.choice([[], [','], [',', '.']]),
			DW=rng.choice([[], [], ['the'], ['cat', '!']]),
			EQL=rng.choice(EQLS), EQW=rng.choice([[], [], [['dog', 'hund'],
				['hund', 'chien']], [['big', 'large']], [['dog', 'hund'],
				['hund', 'chien'], ['chien', 'big'], ['large', 'big']]]),
			LA=0, TED=0, DEP=0)
	if any(a in p['DL'] for x in p['EQL'] for a in x):
		p['EQL'] = []
	return p


def paramtext(rng, p, cli):
	lines = []
	default = dict(LABELED=1, DISC=0, DRP=0, CUT=40, LA=0, TED=0)
	names = dict(DISC='DISC_ONLY', DRP='DELETE_ROOT_PRETERMS',
			CUT='CUTOFF_LEN')
	for a, b in default.items():
		if p[a] != b or rng.random() < 0.3:
			lines.append('%s %d' % (names.get(a, a), p[a]))
	for a, b in dict(DL='DELETE_LABEL', DLL='DELETE_LABEL_FOR_LENGTH',
			DW='DELETE_WORD').items():
		lines.extend('%s%s%s' % (b, rng.choice([' ', '\t', '  ']), x)
				for x in p[a])
	for a, b in dict(EQL='EQ_LABEL', EQW='EQ_WORD').items():
		lines.extend('%s %s %s' % (b, x, y) for x, y in p[a])
	lines.extend(rng.sample(['', '# comment', '#DELETE_LABEL S',
			'MAX_ERROR 10', 'DEBUG %d' % p.get('DEBUG', 0)], 4))
	if 'DEBUG' in p and not any(a.startswith('DEBUG') for a in lines):
		lines.append('DEBUG %d' % p['DEBUG'])
	rng.shuffle(lines)
	return '\n'.join(lines) + '\n'


def pair(rng, p, n=None, pf=0.4, labs=PHR, tags=TAGS):
	n = n or rng.randint(1, rng.choice([3, 5, 8]))
	g = T.rtree(rng, n, labs, tags, punary=rng.choice([0, 0.2, 0.4]),
			pdisc=rng.choice([0, 0.3, 0.7]), maxarity=4)
	g = deco(rng, g, pf)
	vocab = ['the', 'cat', 'dog', 'hund', 'big', 'sees', 'b', 'large']
	words = [rng.choice(vocab) + ('' if rng.random() < 0.5 else str(m))
			for m in range(n)]
	for d in T.nodes(g):
		if T.ispre(d) and d['l'] in (',', '.') and rng.random() < 0.9:
			words[d['k'][0]['i']] = {',': ',', '.': '!'}[d['l']]
	if p['DRP']:
		words = ['%s%d' % (a, m) if a not in p['DW'] else a
				for m, a in enumerate(words)]
	x = rng.random()
	if x < 0.15:
		c = copy.deepcopy(g)
	elif x < 0.75:
		c = edit(rng, g, labs, tags)
	else:
		c = deco(rng, T.rtree(rng, n, labs, tags, punary=0.2,
				pdisc=rng.choice([0, 0.4]), maxarity=4), pf)
	csent = list(words)
	if p['EQW']:
		eq = sorted({b for a in p['EQW'] for b in a})
		csent = [rng.choice(eq) if a in eq else a for a in csent]
	gtag = {d['k'][0]['i']: d['l'] for d in T.nodes(g) if T.ispre(d)}
	rootpre = {d['k'][0]['i'] for d in g['k'] if T.ispre(d)}
	dele = {m for m in range(n) if gtag[m] in p['DL']
			or words[m] in p['DW'] or (p['DRP'] and m in rootpre)}
	if p['DEP']:
		csent = list(words)
		g = heads(rng, g, dele)
		c = g if rng.random() < 0.1 else heads(rng, c, dele)
	elif rng.random() < 0.25:
		# tokens missing in the candidate that are ignored in the gold tree
		dele = {m for m in dele if all(k in dele for k in range(n)
				if words[k] == words[m] or csent[k] == csent[m])}
		gone = {m for m in dele if rng.random() < 0.5}
		if len(gone) < n:
			c = without(c, gone)
			csent = [a for m, a in enumerate(csent) if m not in gone]
	if rng.random() < 0.02:
		csent[rng.randrange(len(csent))] = 'other'
	return dict(gt=g, ct=c, gs=words, cs=csent)


def session(rng, p, m=None, **kw):
	prs = [pair(rng, p, **kw) for _ in range(m or rng.randint(1, 5))]
	if len(prs) > 1:  # mostly complete sessions
		prs = [a for a in prs if 'other' not in a['cs']] or prs[:1]
	for n, a in enumerate(prs, 1):
		a['n'] = str(n * 7 % 100)
	return prs


def annotated(d):
	names = iter(range(500, 900))

	def go(d, top):
		if d['i'] >= 0:
			return T.term(d['i'])
		name = '' if top or T.ispre(d) else str(next(names))
		return dict(l=d['l'], i=-1, k=[go(c, False) for c in d['k']],
				f='-'.join(d['f']) or '--', m='--', e='--', x=[], id=name)
	return go(d, True)


def fixdec(d):
	"""JSON -> ParentedTree with function tags (and heads, see lib/gens)."""
	from discodop.tree import ParentedTree, HEAD
	if d['i'] >= 0:
		return d['i']
	t = ParentedTree(d['l'], [fixdec(c) for c in d['k']])
	if d['f']:
		t.source = ['x', '--', d['l'], '--', '-'.join(d['f']), '0']
	if d.get('h'):
		t.type = HEAD
	return t


def encf(t):
	from discodop.treebanktransforms import functions
	if isinstance(t, int):
		return dict(l='', i=t, k=[], f=[])
	return dict(l=t.label, i=-1, k=[encf(c) for c in t], f=functions(t))


def bag(counter):
	from discodop.treetransforms import getbits
	return [[a, list(getbits(b))] for a, b in sorted(counter.elements())]


def parsesummary(txt):
	"""Lines of the summary as [name, values...]"""
	res = []
	lines = txt.splitlines()
	start = [n for n, a in enumerate(lines) if ' Summary ' in a][-1]
	head = lines[start]
	res.append(['ALL'] if '(ALL)' in head else
			['<=', head.split('<=')[1].split()[0]])
	for a in lines[start + 1:]:
		if a.strip():
			vals = re.sub(r' \(\d+ / \d+\)$', '', a[26:])
			parts = re.findall(r'[^ ()]+', vals)
			res.append([a[:26].strip().rstrip(':')] + parts)
	return res


INFO = re.compile(r'^ *(\S+)  ([ \d]{5})  (.{6})  (.{6})   ([ \d]{5})  '
		r'([ \d]{5})  ([ \d]{5})  ([ \d]{5})  ([ \d]{4})  (.{6}) (.*)$')


def parseinfo(txt):
	res = []
	for a in txt.split(' Rewrite rule mismatches')[0].splitlines():
		m = INFO.match(a)
		if m:
			x = [b.strip() for b in m.groups()]
			extra = m.group(11)
			res.append(x[:10] + [extra[n:n + 6].strip()
					for n in range(0, len(extra), 6)])
	return res


def section(txt, name):
	"""The rows of a table."""
	if name not in txt:
		return None
	rest = txt.split(name, 1)[1].splitlines()
	start = [n for n, a in enumerate(rest) if '____' in a][0]
	res = []
	for a in rest[start + 1:]:
		if not a.strip() or ' Statistics' in a or ' Summary ' in a:
			break
		res.append(a)
	return res


def table(txt, name):
	rows = section(txt, name)
	if rows is None:
		return [], []
	cats, errs = [], []
	for a in rows:
		left, right = a[:40], a[40:]
		if left.strip():
			cats.append([left[:7].strip()] + [left[n:n + 6].strip()
					for n in (9, 17, 25, 33)])
		if right.strip():
			x = right.split()
			errs.append([x[0], x[1], int(x[2])])
	return cats, errs


def runsession(inp):
	from discodop import eval as M
	p = inp['p']
	with tempfile.TemporaryDirectory() as tmp:
		fn = os.path.join(tmp, 'x.prm')
		with open(fn, 'w', encoding='utf8') as out:
			out.write(inp['ptext'])
		if inp['cli']:
			return runcli(inp, tmp, fn)
		param = M.readparam(fn)
	if p['DEP']:
		param['DEP'] = 1
	ev = M.Evaluator(param)
	out = dict(prs=[], run=[], err='')
	try:
		for x in inp['prs']:
			r = ev.add(x['n'], fixdec(x['gt']), list(x['gs']),
					fixdec(x['ct']), list(x['cs']))
			sc = r.scores()
			acc = ev.acc.scores()
			out['prs'].append(dict(gb=bag(r.gbrack), cb=bag(r.cbrack),
					g=encf(r.gtree), c=encf(r.ctree), gp=list(r.gpos),
					cp=list(r.cpos), len=r.lengpos, words=list(r.gsent),
					sc=[sc[a] for a in ('LR', 'LP', 'LF', 'POS', 'FUN')],
					cdiff=parsediff(r.bracketings(), 'cand-gold='),
					gdiff=parsediff(r.bracketings(), 'gold-cand='),
					la=scaled(r.lascore), ted=[str(r.ted), str(r.denom)],
					gdep=[list(a) for a in r.gdep],
					cdep=[list(a) for a in r.cdep]))
			out['run'].append([acc[a] for a in
					('lr', 'lp', 'lf', 'ex', 'tag', 'fun')])
	except (ValueError, KeyError) as exc:
		out['err'] = exc.__class__.__name__
	else:
		out['sum'] = parsesummary(ev.summary())
		out['hund'] = hundredths(out['sum'])
	return out


def parsediff(txt, name):
	"""Brackets listed as A[0,2-3] after name."""
	if name not in txt:
		return []
	txt = txt[txt.index(name) + len(name):].split(' gold-cand=')[0]
	res = []
	for a, b in re.findall(r'([^\s,\[]*)\[([-\d,]*)\]', txt):
		pos = []
		for c in b.split(','):
			pos.extend(range(int(c.split('-')[0]), int(c.split('-')[-1]) + 1))
		res.append([a, pos])
	return res


def hundredths(rows):
	"""Leaf-ancestor scores as integers, -1 for none."""
	for a in rows:
		if a[0] == 'leaf-ancestor':
			return [-1 if b == 'nan' else round(float(b) * 100)
					for b in a[1:]]
	return []


def scaled(dec):
	return -1 if dec.is_nan() else int(dec * 10000000)


def runcli(inp, tmp, fn):
	import contextlib
	import io
	from discodop import eval as M
	gold = [formats.export_block(annotated(x['gt']), x['gs'], x['n'])
			for x in inp['prs']]
	gold += [formats.export_block(annotated(x['gt']), x['gs'], x['n'])
			for x in inp['extra']]
	gold = [gold[n] for n in inp['order']]
	cand = [formats.export_block(annotated(x['ct']), x['cs'], x['n'])
			for x in inp['prs']]
	for name, data in (('gold', gold), ('cand', cand)):
		with open(os.path.join(tmp, name), 'w', encoding='utf8') as out:
			out.write('#FORMAT 4\n' + '\n'.join(b for a in data for b in a)
					+ '\n')
	if inp['headrules']:
		with open(os.path.join(tmp, 'hr'), 'w', encoding='utf8') as out:
			out.write(inp['headrules'])
	argv = sys.argv
	sys.argv = ['discodop', 'eval', os.path.join(tmp, 'gold'),
			os.path.join(tmp, 'cand'), fn] + [a.replace('HR',
			os.path.join(tmp, 'hr')) for a in inp['opts']]
	buf = io.StringIO()
	out = dict(err='')
	try:
		with contextlib.redirect_stdout(buf):
			M.main()
	except (ValueError, KeyError) as exc:
		out['err'] = exc.__class__.__name__
	finally:
		sys.argv = argv
	if out['err']:
		return out
	txt = buf.getvalue()
	out['sum'] = parsesummary(txt)
	out['hund'] = hundredths(out['sum'])
	out['info'] = parseinfo(txt)
	if inp['p']['LA']:
		for a in out['info']:
			n = len(a) - 1 - (inp['p']['TED'] != 0)
			out.setdefault('las', []).append(-1 if a[n] == 'nan'
					else round(float(a[n]) * 100))
			a[n] = 'LA'
	out['tables'] = int(' Category Statistics' in txt)
	out['cats'], out['caterrs'] = table(txt, ' Category Statistics')
	out['funs'], out['funerrs'] = table(txt, ' Function Tag Statistics')
	out['tags'], out['tagerrs'] = table(txt, ' POS Statistics')
	out['atts'] = [[a.split()[0], a.split()[1], a.split()[2],
			int(a.split()[3])] if len(a.split()) == 4 else
			[a[:7].strip(), a[9:16].strip(), a[18:25].strip(), int(a[27:])]
			for a in section(txt, ' Attachment errors') or []]
	return out


def clisession(rng, p):
	p = dict(p, DEBUG=rng.choice([1, 1, 1, 0, -1]))
	opts = []
	q = dict(p)
	if rng.random() < 0.3:
		if p['DISC']:
			opts.append('--disconly')
			q['DISC'] = 0
	if rng.random() < 0.3:
		opts.append('--cutofflen=%d' % p['CUT'])
		q['CUT'] = rng.choice([40, 3])
	if rng.random() < 0.3 and p['DEBUG'] == 1:
		opts.append('--verbose')
		q['DEBUG'] = 0
	for a in ('TED', 'LA'):
		if p[a] and rng.random() < 0.5:
			opts.append('--' + a.lower())
			q[a] = 0
	prs = session(rng, p, m=rng.randint(1, 6))
	for x in prs:  # no annotation of the root in this format
		x['gt']['f'] = x['ct']['f'] = []
	extra = [dict(pair(rng, p), n=str(900 + n)) for n in range(
			rng.choice([0, 0, 2]))]
	order = list(range(len(prs) + len(extra)))
	if rng.random() < 0.5:
		rng.shuffle(order)
	return dict(op='session', cli=True, p=p, ptext=paramtext(rng, q, True),
			prs=prs, extra=extra, order=order, opts=opts, headrules='')
