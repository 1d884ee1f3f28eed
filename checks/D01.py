"""Treebank formats: in the model, tables in every numbering are read back
for all small discontinuous trees; real writers and readers on random
annotated trees through chains of formats, compared field by field."""
import gzip
import io
import os
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import formats as F
MODULES = ['bit']
SPEC = 'FormatsTrace'
MODELS = [('FormatsMC', 'FormatsMC.cfg')]
MODELS_THOROUGH = [('FormatsMC', 'FormatsMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'disc')]
ASSUMPTIONS = ['tokens and labels without white space; in export format, no '
		'token looks like a constituent number or contains %%',
		'Alpino: labels of constituents in upper case, tags in lower case',
		'up to 500 constituents per tree (export format)']
WORDS = ['a', 'the', '(', ')', 'x=y', '1', '0=1', '#', '#BOS', '#12', '%',
		'é', "'", '"', '&', '<b>', '$.', '--', '/', '...', 'a|b', '日本',
		'#LRB', '[', '=', '\\', '50%', 'a%b', 'a#b', "x'y", ';', '``', "''",
		'a:b', ':', '0', '-', '_', '*', '*T*-1', '+', 'x&amp;', '>', ']]>', '{',
		'1,000', '\u2026', '#EOS', '12=', '<', '--x', '"a"',
		'cat="NP"', "a'\"b"]
LABS = ['S', 'VP', 'NP-SBJ', 'NP-SBJ-1', 'X=2', 'PP-LOC=1', '-NONE-', 'AP-2',
		'A|<B>', 'NP[x]', 'CS-A-B', 'ROOT']
TAGS = ['N', '$.', '$[', 'V-X', 'ADJ/sg', 'd', '--']
ULABS = ['S', 'VP', 'NP-SBJ', 'X=2', 'ROOT', 'TOP']
LTAGS = ['n', 'v-x', 'adj', '.', '--']


def chain(rng, t=None):
	cont = rng.random() < 0.3
	fmts = [rng.choice(['export', 'export', 'discbracket', 'alpino']
			+ ['bracket'] * cont) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
	alp = 'alpino' in fmts
	if t is None:
		n = rng.randint(1, 10)
		t = T.rtree(rng, n, ULABS if alp else LABS,
				tags=LTAGS if alp else TAGS, punary=0.2,
				pdisc=0 if cont else 0.4, root=rng.choice(['ROOT', 'TOP']))
	else:
		n = len(T.leaves(t))
		labs = {}
		ph, ta = (ULABS, LTAGS) if alp else (LABS, TAGS)
		t = T.relabel(t, lambda d: labs.setdefault((d['l'], T.ispre(d)),
				rng.choice(ta if T.ispre(d) else ph)))
		if 'bracket' in fmts and any(T.fanout(T.leaves(d)) > 1
				for d in T.nodes(t)):
			fmts = [a.replace('bracket', 'export')
					if a == 'bracket' else a for a in fmts]
	if 'bracket' not in fmts and rng.random() < 0.5:
		def shuf(d):
			if d['i'] >= 0:
				return d
			k = [shuf(c) for c in d['k']]
			rng.shuffle(k)
			return dict(d, k=k)
		t = shuf(t)
	sent = [rng.choice(WORDS) for _ in range(n)]
	if not ({'export', 'alpino'} & set(fmts)) and rng.random() < 0.2:
		sent[rng.randrange(n)] = 'None'
	t = F.annotate(rng, t)
	if 'alpino' in fmts:
		t['f'] = rng.choice(F.FUNCS)
	if rng.random() < 0.1:  # trees without annotation
		for d in T.nodes(t):
			d.update(f='--', m='--', e='--', x=[], id='', nosource=True)
	return dict(op='chain', t=t, sent=sent, fmts=fmts,
			key=rng.choice(['1', '23', 'a-1', 'é_x.2']),
			comment=rng.choice(['', '', 'some comment', 'a "b" (c) <d>', 'é']),
			enc=rng.choice(['utf8', 'utf8', 'utf-16'])
				if 'alpino' not in fmts else 'utf8',
			gz=rng.random() < 0.2)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('disc')):
		if ctx.thorough or rng.random() < 0.15:
			yield chain(rng, a['t'])
	for _ in range(ctx.n(900, 12000)):
		yield chain(rng)
		if rng.random() < 0.5:
			fmt = rng.choice(['export', 'tiger', 'alpino', 'ftb'])
			disc = 0 if fmt == 'ftb' else 0.4
			labs = dict(alpino=['S', 'VP', 'NP'], ftb=['NP', 'VN', 'MWX', 'PP'],
					).get(fmt, LABS)
			tags = ['n', 'v', 'adj'] if fmt == 'alpino' else [
					'N', '$.', '$(', 'V'] if fmt != 'ftb' else ['N', 'V', 'A']
			n = rng.randint(1, 9)
			t = F.annotate(rng, T.rtree(rng, n, labs, tags=tags, pdisc=disc,
					root=dict(tiger='VROOT', ftb='SENT', alpino='TOP').get(
						fmt, 'ROOT')), sec=fmt != 'ftb')
			if fmt == 'alpino':
				t['f'] = 'top'
			cols = rng.choice([5, 6]) if fmt == 'export' else 6
			for d in T.nodes(t):
				if (cols == 5 or not T.ispre(d)):
					d['e'] = '--'
				if fmt != 'export' and not T.ispre(d):
					d['m'] = '--'
			yield dict(op='read', fmt=fmt, t=t, cols=cols, key='s1',
					sep=rng.choice(['\t', '\t\t', '\t ']),
					sent=[rng.choice(WORDS) for _ in range(n)])


def opener(name, mode, enc):
	return (gzip.open if name.endswith('.gz') else open)(name, mode + 't',
			encoding=enc, newline='')


def spans(text):
	"""Position, start, end and sentence of Alpino XML nodes."""
	root = ET.fromstring(text)
	return dict(nodes=[[int(a.get('id')), int(a.get('begin')),
			int(a.get('end'))] for a in root.iter('node')],
			sent=root.find('sentence').text)


def execute(inp):
	from discodop import treebank as M
	sent = [None if a == 'None' else a for a in inp['sent']]
	if inp['op'] == 'read':
		fmt, key, t = inp['fmt'], inp['key'], inp['t']
		if fmt == 'export':
			text = '\n'.join(['#FORMAT 3'] + F.export_block(t, sent, key,
					cols=inp['cols'], sep=inp['sep'])) + '\n'
		elif fmt == 'tiger':
			text = F.tiger_file([F.tiger_xml(t, sent, key)])
		elif fmt == 'ftb':
			text = F.ftb_file([F.ftb_xml(t, sent, key)])
		else:
			text = F.alpino_xml(t, sent, 'cmt')
		name = 'x.' + ('export' if fmt == 'export' else 'xml')
		with open(name, 'w', encoding='utf8') as f:
			f.write(text)
		(k, item), = M.READERS[fmt](name, encoding='utf8').itertrees()
		return dict(t=F.encann(item.tree), sent=item.sent, key=k,
				comment=item.comment)
	t = F.decann(inp['t'])
	stages = []
	comment = inp['comment'] or None
	for n, fmt in enumerate(inp['fmts']):
		text = M.writetree(t, sent, inp['key'], fmt, comment=comment)
		st = dict(fmt=fmt, tab=[], head=[], xml=dict(nodes=[], sent=''),
				text='', inc=[])
		if fmt == 'export':
			lines = text.split('\n')
			st['head'] = [lines[0], lines[-2], lines[-1]]
			st['tab'] = [a.split('\t') for a in lines[1:-2]]
		elif fmt == 'alpino':
			st['xml'] = spans(text)
		else:
			st['text'] = text
		try:
			st['inc'] = [dict(t=F.encann(a), sent=b) for a, b, _ in
					M.incrementaltreereader(io.StringIO(text))]
		except RecursionError:
			raise
		os.makedirs('d', exist_ok=True)
		name = 'd/%s.%s' % (inp['key'], 'xml' if fmt == 'alpino' else 'txt')
		if inp['gz'] and fmt != 'alpino':
			name += '.gz'
		with opener(name, 'w', inp['enc']) as f:
			f.write(text)
		(k, item), = M.READERS[fmt](name.replace('[', '[[]'),
				encoding=inp['enc']).itertrees()
		t, sent = item.tree, [a or None for a in item.sent]
		st.update(key=str(k), t=F.encann(t), sent=sent,
				comment=item.comment or '')
		stages.append(st)
		if fmt != 'alpino' and comment:
			comment = item.comment or comment
	return dict(stages=stages, tokens=M.writetree(t, [a or '' for a in sent],
			'1', 'tokens', sentid=True), wordpos=M.writetree(
			t, [a or '' for a in sent], '1', 'wordpos'))
