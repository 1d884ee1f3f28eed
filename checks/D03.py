"""Corpus readers: a model of a reader with caches and lazy iterators answers
every history of requests from the same corpus; real readers on random corpora
divided over files, with random interleavings of all access paths; conversion
on the command line."""
import gzip
import os
import sys
import shutil
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import formats as F
MODULES = ['bit', 'containers']
SPEC = 'CorpusTrace'
MODELS = [('CorpusMC', 'CorpusMC.cfg')]
MODELS_THOROUGH = [('CorpusMC', 'CorpusMCBig.cfg')]
ASSUMPTIONS = ['file names of letters, digits and - . _',
		'no two files of a corpus have names that are equal up to leading '
		'zeroes', 'export identifiers without white space']
WORDS = ['a', 'the', '1', 'é', "'", '.', '%', 'x=y', '#']
PUNCT = ['.', ',', '"', "'", '(', ')', '``', "''", '-', 'a', 'b']
LABELS = ['NP', 'VP', 'PP', 'MWX', 'S', 'n', 'v', 'N', 'V', 'A', 'VROOT',
		'SENT', 'TOP', 'ROOT', 'X', '-NONE-']
HEADS = sorted({a.upper() for a in LABELS})
EXT = dict(export='export', bracket='mrg', discbracket='dbr', tiger='xml',
		alpino='xml', ftb='xml')
STEMS = ['a', 'b', 'a-1', 'a-2', 'a-10', 'a_b', '1', '2', '10', '9', 'x.1',
		'x.02', 'x.10', 'wsj_0001', 'wsj_0002', 'wsj_0010', 'A', 'a.b-3']


def esc(a):
	return a.replace('(', '#LRB#').replace(')', '#RRB#')


def brk(t, sent, disc):
	if t['i'] >= 0:
		return ('%d=%s' if disc else '%.0s%s') % (t['i'], esc(sent[t['i']]))
	return '(%s %s)' % (t['l'], ' '.join(brk(c, sent, disc) for c in t['k']))


def plain(t):
	return dict(l=t['l'], i=t['i'], k=[plain(c) for c in t['k']])


def sentence(rng, fmt, key, cont=False, words=WORDS):
	n = rng.randint(1, 6)
	disc = 0 if fmt in ('bracket', 'ftb') or cont else 0.4
	labs = ['NP', 'VP', 'PP', 'MWX'] if fmt == 'ftb' else ['NP', 'VP', 'S']
	tags = ['n', 'v'] if fmt == 'alpino' else ['N', 'V', 'A']
	if fmt in ('export', 'bracket', 'discbracket') and rng.random() < 0.15:
		tags = ['N', 'V', '-NONE-']
	t = T.rtree(rng, n, labs, tags=tags, pdisc=disc, punary=0.1,
			root=dict(tiger='VROOT', ftb='SENT', alpino='TOP').get(
				fmt, 'ROOT'))
	t = T.canonical(t)
	sent = [rng.choice(words) for _ in range(n)]
	cmt = rng.choice(['', '', 'some comment', 'é'])
	ann = F.annotate(rng, t, sec=False)
	for d in T.nodes(ann):
		d.update(e='--', m='--', f='--')
	if fmt == 'export':
		blk = '\n'.join(F.export_block(ann, sent, key, comment=cmt))
	elif fmt == 'bracket':
		blk = brk(t, sent, False)
	elif fmt == 'discbracket':
		blk = brk(t, sent, True) + ('\t' + cmt if cmt else '')
	elif fmt == 'tiger':
		blk = F.tiger_xml(ann, sent, key)
	elif fmt == 'ftb':
		blk = F.ftb_xml(ann, sent, key)
	else:
		blk = F.alpino_xml(ann, sent, cmt)
	return dict(key=key, t=plain(t), sent=sent, cmt=cmt, raw=blk, bad=False,
			blk=ET.canonicalize(blk) if blk.startswith('<') else blk)


def corpus(rng, fmts):
	fmt = rng.choice(fmts)
	nfiles = rng.choice([1, 1, 2, 3, 4])
	stems = rng.sample(STEMS, nfiles)
	gz = fmt != 'alpino' and rng.random() < 0.2
	depth = fmt == 'alpino' or rng.random() < 0.3
	files, sents = [], []
	words = rng.choice([WORDS, PUNCT])
	keys = ['%s%d' % (rng.choice(['', '', 's', 'x.']), a)
			for a in rng.sample(range(1, 60), 30)]
	if fmt == 'export' and rng.random() < 0.8:
		keys = [str(a) for a in range(30, 0, -1)]
	cont = rng.random() < 0.3
	for stem in stems:
		idx = []
		for _ in range(1 if fmt == 'alpino' else rng.choice([0, 1, 1, 2, 3, 5])
				if fmt != 'bracket' else rng.choice([1, 1, 2, 3])):
			if len(keys) < 2:
				break
			sents.append(sentence(rng, fmt, keys.pop(), cont, words))
			idx.append(len(sents))
		d = rng.choice(['c/d1', 'c/d2', 'c/D']) if depth else 'c'
		files.append(dict(dir=d, last=d.split('/')[-1], sents=idx,
				name='%s.%s%s' % (stem, EXT[fmt], '.gz' if gz else ''),
				junk=rng.random() < 0.3, nonl=rng.random() < 0.2))
	return dict(fmt=fmt, files=files, sents=sents, depth=depth, cont=cont,
			enc=rng.choice(['utf8', 'utf8', 'utf-16', 'latin1'])
			if fmt in ('export', 'bracket', 'discbracket') else 'utf8')


def bound(rng, n):
	a = rng.choice([0, 0, 1, 2, rng.randint(0, n + 2)])
	return a, rng.choice([-1, -1, a, a + 1, a + 2, rng.randint(0, n + 2)])


def access(rng):
	c = corpus(rng, ['export', 'export', 'bracket', 'discbracket', 'tiger',
			'alpino', 'ftb'])
	c['op'] = 'access'
	n = len(c['sents'])
	if rng.random() < 0.12 and n > 1 and c['fmt'] == 'export':
		a, b = rng.sample(range(n), 2)
		s = c['sents'][b]
		s['raw'] = s['blk'] = s['raw'].replace('BOS ' + s['key'], 'BOS '
				+ c['sents'][a]['key']).replace('EOS ' + s['key'], 'EOS '
				+ c['sents'][a]['key'])
		s['key'] = c['sents'][a]['key']
	if rng.random() < 0.12 and n > 1 and c['fmt'] == 'alpino':
		s = rng.choice(c['sents'])
		s['bad'] = True
		s['raw'] = s['raw'].replace('</node>', '', 1).replace('/>', '>', 1)
	script = []
	its = 0
	for _ in range(rng.randint(2, 9)):
		r = rng.random()
		if r < 0.5:
			script.append(dict(op=rng.choice(['trees', 'sents', 'tagged',
					'blocks'])))
		elif r < 0.7 or not its:
			a, b = bound(rng, n)
			script.append(dict(op='iter', a=a, b=b))
			its += 1
		else:
			script.append(dict(op='next', k=rng.randint(1, its),
					cnt=rng.choice([1, 1, 2, 99])))
	for k in range(its):
		script.append(dict(op='next', k=k + 1, cnt=99))
	kw = {}
	if rng.random() < 0.2:
		kw['ensureroot'] = rng.choice(['X', 'ROOT', 'NP'])
	if rng.random() < 0.3:
		kw['punct'] = rng.choice(['move', 'moveall', 'root', 'remove',
				'removeall', 'prune'])
	if rng.random() < 0.1:
		kw['functions'] = rng.choice(['remove', 'leave'])
	if rng.random() < 0.2:
		kw['removeempty'] = True
	lines = []
	if rng.random() < 0.25:
		for _ in range(rng.randint(1, 8)):
			lines.append([rng.choice(LABELS).upper(), rng.choice(['LEFT',
				'RIGHT', 'LEFTDIS', 'RIGHTDIS']), rng.sample(HEADS,
				rng.choice([0, 1, 2, 4]))])
	c.update(script=script, kw=kw, root=kw.get('ensureroot', ''),
			punct=kw.get('punct', ''), lines=lines,
			noempty=kw.get('removeempty', False),
			up={a: a.upper() for a in LABELS})
	return c


def conv(rng):
	c = corpus(rng, ['export', 'export', 'bracket', 'discbracket'])
	c['op'] = 'conv'
	c['files'] = [a for a in c['files'] if a['sents']][:1] or c['files'][:1]
	n = len(c['files'][0]['sents'])
	cont = c['cont'] or c['fmt'] == 'bracket'
	c['out'] = rng.choice(['export', 'export', 'discbracket', 'tokens',
			'wordpos', c['fmt']] + ['bracket'] * cont)
	a, b = bound(rng, n) if rng.random() < 0.6 else (0, -1)
	c.update(a=a, b=b, renumber=rng.random() < 0.3,
			maxlen=rng.choice([-1, -1, -1, 3, 4]),
			outenc=rng.choice(['utf8', 'utf8', 'latin1', 'utf-16']))
	return c


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(500, 8000)):
		yield access(rng)
		if rng.random() < 0.3:
			yield conv(rng)


def opener(name, enc):
	return (gzip.open if name.endswith('.gz') else open)(name, 'wt',
			encoding=enc, newline='')


def write(inp):
	shutil.rmtree('c', ignore_errors=True)
	fmt = inp['fmt']
	for f in inp['files']:
		os.makedirs(f['dir'], exist_ok=True)
		raw = [inp['sents'][a - 1]['raw'] for a in f['sents']]
		if fmt == 'alpino':
			text = ''.join(raw)
		elif fmt == 'tiger':
			text = F.tiger_file(raw)
		elif fmt == 'ftb':
			text = F.ftb_file(raw)
		elif fmt == 'export':
			junk = ['#FORMAT 3', '#BOT WORDTAG', '0 UNKNOWN N x', '#EOT WORDTAG',
					'%% word\tlemma'] if f['junk'] else []
			text = '\n'.join(junk + raw) + '\n'
		else:
			text = ('\n\n' if f['junk'] else '\n').join(raw) + '\n'
		if f['nonl']:
			text = text.rstrip('\n')
		with opener(os.path.join(f['dir'], f['name']), inp['enc']) as out:
			out.write(text)


def blk(a):
	if isinstance(a, bytes):
		return ET.canonicalize(a.decode('utf8').strip())
	return a.rstrip('\n')


def marks(t):
	"""Index of head child for each constituent, 0 if none, -1 if many."""
	from discodop.tree import HEAD, Tree
	res = []
	for a in t.subtrees():
		x = [n for n, b in enumerate(a, 1) if isinstance(b, Tree)
				and b.type == HEAD]
		res.append(0 if not x else x[0] if len(x) == 1 else -1)
	return res


def item(key, a, hd):
	return dict(key=str(key), t=T.enc(a.tree), sent=list(a.sent),
			hd=marks(a.tree) if hd else [],
			cmt=str(a.comment) if a.comment != 'x' else 'x', blk=blk(a.block))


def execute(inp):
	from discodop import treebank as M
	write(inp)
	fmt = inp['fmt']
	path = 'c/*/*' if inp['depth'] else 'c/*'
	if inp['op'] == 'conv':
		return conversion(inp)

	rules = None
	if inp['lines']:
		rules = 'rules.txt'
		with open(rules, 'w', encoding='utf8') as out:
			for a, b, x in inp['lines']:
				out.write('%s %s %s\n' % (a, b, ' '.join(x)))

	def reader():
		return M.READERS[fmt](path, encoding=inp['enc'], headrules=rules,
				**inp['kw'])

	def entry(key, a):
		b = item(key, a, rules)
		if fmt == 'ftb':
			b['cmt'] = 'None'
		return b
	res = []
	c = reader()
	its = []
	for r in inp['script']:
		o = dict(err=False, res=[], items=[])
		try:
			if r['op'] == 'iter':
				its.append(c.itertrees(r['a'], None if r['b'] < 0 else r['b']))
			elif r['op'] == 'next':
				for _ in range(r['cnt']):
					try:
						key, a = next(its[r['k'] - 1])
					except StopIteration:
						break
					o['items'].append(entry(key, a))
			elif r['op'] == 'trees':
				o['res'] = [[str(a), T.enc(b)] for a, b in c.trees().items()]
			elif r['op'] == 'sents':
				o['res'] = [[str(a), b] for a, b in c.sents().items()]
			elif r['op'] == 'tagged':
				o['res'] = [[str(a), [list(x) for x in b]]
						for a, b in c.tagged_sents().items()]
			else:
				o['res'] = [[str(a), blk(b)] for a, b in c.blocks().items()]
		except (ValueError, SyntaxError):
			o['err'] = True
		res.append(o)
	return dict(res=res)


def conversion(inp):
	from discodop import treebank as M, cli
	f = inp['files'][0]
	argv = ['discodop', 'treetransforms', os.path.join(f['dir'], f['name']),
			'c/out', '--inputfmt=' + inp['fmt'], '--outputfmt=' + inp['out'],
			'--inputenc=' + inp['enc'], '--outputenc=' + inp['outenc']]
	if (inp['a'], inp['b']) != (0, -1):
		argv.append('--slice=%s:%s' % (inp['a'] or '',
				inp['b'] if inp['b'] >= 0 else ''))
	if inp['renumber']:
		argv.append('--renumber')
	if inp['maxlen'] >= 0:
		argv.append('--maxlen=%d' % inp['maxlen'])
	cli.argv[:] = argv
	cli.treetransforms()
	if inp['out'] in ('tokens', 'wordpos'):
		with open('c/out', encoding=inp['outenc'], newline='') as inp_:
			return dict(text=inp_.read().split('\n')[:-1], items=[])
	items = []
	for key, a in M.READERS[inp['out']]('c/out', encoding=inp['outenc']
			).itertrees():
		items.append(dict(key=str(key), t=T.enc(a.tree), sent=list(a.sent),
				cmt=str(a.comment)))
	return dict(text=[], items=items)
