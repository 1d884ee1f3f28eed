"""Drawings of trees: in the model, every valid placement of small trees is
rendered as a picture from which the tree is read back; real drawings of random
trees: the placement is valid, and the tree is read back from the text, SVG and
TikZ output."""
import html as htmllib
import io
import os
import re
import sys
import contextlib
import unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit']
SPEC = 'DrawingTrace'
MODELS = [('DrawingMC', 'DrawingMC.cfg')]
MODELS_THOROUGH = [('DrawingMC', 'DrawingMCBig.cfg'),
		('DrawingMC', 'DrawingMCUn.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'disc')]
ASSUMPTIONS = ['labels and tokens are not empty and contain no white space or '
		'line drawing characters', 'labels: letters, digits and - . * only']
SYM = ['\u2500', '\u250c', '\u2510', '\u2502', '\u252c', '\u2534', '\u253c']
TOASCII = str.maketrans(dict(zip(SYM, '_  |_||')))
LABS = ['S', 'NP', 'VP', 'NP-SBJ', 'X-Y-Z', 'SBARQ', 'Phrase', '-NONE-', '.']
TAGS = ['N', 'V', 'ADJA', '.', ',', 'PRP-A']
WORDS = ['a', 'is', 'the', 'house', '.', "'s", 'x-y', '&', '<b>', '\xe9',
		'\u65e5\u672c', '(', 'consider', '1', '0', 'x=y', '"', 'None', '42']


def grid(rng, t=None, big=False):
	if t is None:
		n = rng.randint(1, 22 if big else 9)
		t = T.rtree(rng, n, LABS, tags=TAGS, pdisc=rng.choice([0, 0.3, 0.6]),
				punary=rng.choice([0, 0.1, 0.3]), root='ROOT')
	else:
		n = len(T.leaves(t))
		t = T.relabel(t, lambda d: rng.choice(TAGS if T.ispre(d) else LABS))

	def shuf(d):
		if d['i'] >= 0:
			return d
		k = [shuf(c) for c in d['k']]
		rng.shuffle(k)
		return dict(d, k=k)
	cont = all(T.fanout(T.leaves(d)) == 1 for d in T.nodes(t))
	if rng.random() < 0.5:
		t = shuf(t)
		cont = False
	sent = [rng.choice(WORDS) for _ in range(n)]
	if rng.random() < 0.15:  # terminals directly under constituents
		def drop(d):
			if T.ispre(d) and rng.random() < 0.4:
				return d['k'][0]
			return dict(d, k=[drop(c) for c in d['k']])
		if not T.ispre(t):
			t = drop(t)
	gap = rng.random() < 0.1
	if gap:  # tokens that are not part of the tree
		at = rng.randrange(n + 1)

		def shift(d):
			return dict(d, i=d['i'] + (d['i'] >= at), k=[shift(c)
					for c in d['k']])
		t = shift(t)
		sent.insert(at, 'gap')
	hl = []
	if rng.random() < 0.3 and not gap:
		def height(d):
			return 1 + max(map(height, d['k'])) if d['k'] else 1
		hl = [dict(l=d['l'], h=height(d), y=sorted(T.leaves(d)))
				for d in T.nodes(t) if rng.random() < 0.4]
		hl += [dict(l='', h=1, y=[a]) for a in range(n)
				if rng.random() < 0.4]
	how = rng.choice(['tree'] * 5 + ['str', 'disc', 'words', 'indices'])
	if how in ('str', 'words') and (not cont or gap):
		how = 'disc' if not gap else 'tree'
	if how == 'indices':
		sent = ['%d' % a for a in range(len(sent))]
	elif how != 'tree':
		sent = ['b' if a == 'None' or how == 'words' and a == '(' else a
				for a in sent]
	return dict(op='grid', t=t, sent=sent, hl=hl if how == 'tree' else [],
			how=how, cont=cont and not gap and how != 'indices',
			funcsep=rng.choice(['-', '', '']), maxwidth=rng.choice([5, 7]),
			abbr=rng.random() < 0.1 and how in ('tree', 'indices'),
			long=rng.random() < 0.3, sym=SYM)


def dep(rng):
	n = rng.randint(1, 9)
	heads = [0] * n
	order = list(range(1, n + 1))
	rng.shuffle(order)
	for a, b in enumerate(order[1:], 1):
		heads[b - 1] = rng.choice(order[:a])
	return dict(op='dep', words=[rng.choice(['a', 'is', 'house', 'x-y'])
			for _ in range(n)], tags=[rng.choice(TAGS) for _ in range(n)],
			heads=heads, rels=[rng.choice(['nsubj', 'obj', 'root', 'a:b'])
			for _ in range(n)], conll=rng.random() < 0.5)


def secedges(rng):
	"""Nodes are numbered in preorder; labels are all different."""
	t = T.rtree(rng, rng.randint(1, 7), ['S', 'NP'], tags=TAGS,
			pdisc=rng.choice([0, 0.4]), punary=0.2, root='ROOT')
	cnt = [0]

	def number(d):
		if d['i'] >= 0:
			return d
		cnt[0] += 1
		lab = '%s*%d' % (d['l'], cnt[0])
		return T.node(lab, [number(c) for c in d['k']])
	t = number(t)
	ns = list(T.nodes(t))
	targets = [n for n, d in enumerate(ns, 1) if n > 1 and not T.ispre(d)]
	ids = rng.sample(range(500, 520), len(ns))
	sec = [[rng.randint(2, len(ns)), rng.choice(['SBJ', 'OA', '--']),
			ids[rng.choice(targets) - 1] if targets and rng.random() < 0.9
			else rng.choice([521, 500 + len(ns)])]
			for _ in range(rng.choice([0, 1, 2, 4])) if len(ns) > 1]
	return dict(op='sec', t=t, ids=ids, sec=sec,
			sent=['w%d' % a for a in sorted(T.leaves(t))])


def cli(rng):
	n = rng.randint(1, 4)
	return dict(op='cli', trees=[T.rtree(rng, rng.randint(1, 5), ['S', 'NP'])
			for _ in range(n)], out=rng.choice(['text', 'svg', 'tikznode',
			'tikzmatrix', 'frontier', 'html']), lim=rng.choice([0, 0, 1, 2]),
			cmt=rng.random() < 0.5)


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('disc')):
		if ctx.thorough or rng.random() < 0.25:
			yield grid(rng, a['t'])
	for _ in range(ctx.n(450, 8000)):
		yield grid(rng, big=rng.random() < 0.25)
		if rng.random() < 0.1:
			yield dep(rng)
		if rng.random() < 0.1:
			t = T.rtree(rng, rng.randint(1, 9), LABS, tags=TAGS)
			yield dict(op='frontier', t=t, sent=[rng.choice(WORDS)
					for _ in T.leaves(t)])
		if rng.random() < 0.06:
			yield cli(rng)
		if rng.random() < 0.1:
			yield secedges(rng)


def nfc(text):
	return unicodedata.normalize('NFC', text).replace('\u2026', '~')


def cutlines(text):
	assert text.endswith('\n')
	return [a.rstrip() for a in text[:-1].split('\n')]


ANSI = re.compile('\x1b\\[([0-9]+)(?:;1)?m(.*?)\x1b\\[0m|([^ \x1b%s]+)'
		% ''.join(SYM))


def nodraw(a):
	return re.sub('\x1b\\[[0-9;]*m', '', a)


def svgparse(text):
	import xml.etree.ElementTree as ET
	root = ET.fromstring(text)
	texts, segs = [], []
	for a in root:
		if a.tag.endswith('text'):
			texts.append([int(a.get('x')), int(a.get('y')),
					nfc(''.join(a.itertext()))])
		elif 'stroke:white' not in a.get('style'):
			p = [b.split(',') for b in a.get('points').split()]
			segs.append([int(x) for b in p for x in b])
	return dict(texts=texts, segs=segs)


TNODE = re.compile(r'^\t\((\d+), (\d+)\) node \(n(\d+)\) '
		r'\{ \\textcolor\{\w+\}\{(.*?)\}(-\\textcolor\{\w+\}\{(.*)\})? \}$')
MNODE = re.compile(r'^\\node \(n(\d+)\) '
		r'\{ \\textcolor\{\w+\}\{(.*?)\}(-\\textcolor\{\w+\}\{(.*)\})? \};$')
EDGE = re.compile(r'^\\draw \(n(\d+)\) -- \+\(0, -0.5\) -\| \(n(\d+)\);$')


def unlatex(a):
	return nfc(a.replace('\\$', '$').replace('\\_', '_')
			.replace('$<$', '<').replace('$>$', '>'))


def tikz(text):
	nodes, edges = [], []
	for line in text.split('\n'):
		m = TNODE.match(line)
		if m:
			nodes.append([int(m.group(1)), int(m.group(2)), int(m.group(3)),
					unlatex(m.group(4) + ('-' + m.group(6)
						if m.group(5) else ''))])
		m = EDGE.match(line)
		if m:
			edges.append([int(m.group(1)), int(m.group(2))])
	return nodes, edges


def tikzmatrix(text):
	nodes, edges = [], []
	start, rest = text.split('\\matrix[row sep=0.5cm,column sep=0.1cm] {\n', 1)
	body, rest = rest.split('\n};\n', 1)
	for row, line in enumerate(body.split('\n')):
		assert line.endswith(' \\\\')
		for col, cell in enumerate(re.split('(?:^|(?<= ))&(?: |$)',
				line[:-3])):
			cell = cell.strip(' ')
			if cell:
				m = MNODE.match(cell)
				nodes.append([row, col, int(m.group(1)), unlatex(m.group(2)
						+ ('-' + m.group(4) if m.group(3) else ''))])
	for line in rest.split('\n'):
		m = EDGE.match(line)
		if m:
			edges.append([int(m.group(1)), int(m.group(2))])
	return nodes, edges


def qtree(text):
	body = text.split('  \\Tree ', 1)[1].rsplit('\n\\end', 1)[0]
	stack, words = [T.node('', [])], []
	for a in body.split():
		if a.startswith('[.'):
			stack.append(T.node(nfc(re.sub(r'\\(.)', r'\1', a[2:])), []))
		elif a == ']':
			x = stack.pop()
			stack[-1]['k'].append(x)
		else:
			stack[-1]['k'].append(T.term(len(words)))
			words.append(nfc(re.sub(r'\\(.)', r'\1', a)))
	return [dict(t=stack[0]['k'][0], words=words)]


def brk(t, sent, disc):
	if t['i'] >= 0:
		w = sent[t['i']].replace('(', '-LRB-')
		return '%d=%s' % (t['i'], w) if disc else w
	return '(%s %s)' % (t['l'], ' '.join(brk(c, sent, disc) for c in t['k']))


def execute(inp):
	from discodop import tree as M
	if inp['op'] == 'dep':
		return dodep(inp, M)
	elif inp['op'] == 'cli':
		return docli(inp, M)
	elif inp['op'] == 'sec':
		tree = T.dec(inp['t'])
		for n, node in enumerate(tree.subtrees(), 1):
			if n == 1:
				continue  # the root is not listed in the treebank
			node.source = ['w' if T.ispre(T.enc(node)) else '#%d'
					% inp['ids'][n - 1], '--', node.label, '--', 'HD', '500']
			for a, rel, b in inp['sec']:
				if a == n:
					node.source += [rel, '%d' % b]
		with_ = M.DrawTree(tree, inp['sent'], secedge=True)
		without = M.DrawTree(tree, inp['sent'])
		labs = lambda dt: [[dt.nodes[n].label, dt.labels[n]] for n in dt.nodes
				if isinstance(dt.nodes[n], M.Tree)]
		text = with_.text(maxwidth=None)
		return dict(labs=labs(with_), plain=labs(without), shown=[
				b for _, b in labs(with_) if b in text.split()])
	sent = [None if a == 'None' else unicodedata.normalize('NFD', a)
			for a in inp['sent']]
	if inp['op'] == 'frontier':
		text = M.frontier(T.dec(inp['t']), sent)
		col = {str(M.ANSICOLOR['blue']): 'node', str(M.ANSICOLOR['red']):
				'leaf'}
		return dict(toks=[[col[m.group(1)], m.group(2)] for m in re.finditer(
				'\x1b\\[([0-9]+);1m(.*?)\x1b\\[0m', nfc(text))])
	arg = T.dec(inp['t'])
	if inp['how'] == 'str':
		dt = M.DrawTree(brk(inp['t'], sent, False))
	elif inp['how'] == 'disc':
		dt = M.DrawTree(brk(inp['t'], sent, True))
	elif inp['how'] == 'words':
		def words(d):
			return (sent[d['i']] if d['i'] >= 0 else
					M.ParentedTree(d['l'], [words(c) for c in d['k']]))
		arg = words(inp['t'])
		dt = M.DrawTree(arg)
	elif inp['how'] == 'indices':
		dt = M.DrawTree(arg, abbr=inp['abbr'])
	else:
		hl = []
		want = [(a['l'], a['h'], a['y']) for a in inp['hl']]

		def walk(a):
			if isinstance(a, int):
				if ('', 1, [a]) in want:
					hl.append(a)
			else:
				if (a.label, a.height(), sorted(a.leaves())) in want:
					hl.append(a)
				for c in a:
					walk(c)
		walk(arg)
		if inp['abbr']:
			hl = []
		dt = M.DrawTree(arg, sent, abbr=inp['abbr'], highlight=hl)
	hlon = bool(inp['hl']) and not inp['abbr']
	nodes = []
	for n in sorted(dt.nodes):
		a = dt.nodes[n]
		isterm = not isinstance(a, M.Tree)
		nodes.append([n, dt.edges.get(n, -1), isterm,
				nfc(a if isterm else a.label)] + list(dt.coords[n]))
	fs = inp['funcsep'] or None
	text = dt.text(unicodelines=True, maxwidth=None)
	o = dict(nodes=nodes, text=cutlines(nfc(text)), rawtext=text, ascii=[],
			asciiwant=[], same=[], colors=[], wrap=[],
			svg=svgparse(dt.svg(funcsep=fs)), qtree=[])
	o['ascii'] = cutlines(nfc(dt.text(maxwidth=None)))
	o['asciiwant'] = [a.translate(TOASCII).rstrip() for a in o['text']]
	h = dt.text(unicodelines=True, html=True, funcsep=fs, maxwidth=None)
	o['same'].append(htmllib.unescape(re.sub('</?font[^>]*>', '', h)))
	h = dt.text(unicodelines=True, ansi=True, funcsep=fs, maxwidth=None)
	o['same'].append(nodraw(h))
	if not hlon:
		h = dt.text(unicodelines=True, html=True, funcsep=fs, maxwidth=None,
				nodeprops='x')
		o['same'].append(htmllib.unescape(re.sub(
				'</?(?:font|span)(?: [^>]*)?>', '', h)))
	h = nfc(dt.text(unicodelines=True, ansi=True, maxwidth=None))
	names = {str(M.ANSICOLOR['blue']): 'node', str(M.ANSICOLOR['red']): 'leaf'}
	if not inp['abbr']:
		for line in h.split('\n'):
			for m in ANSI.finditer(line):
				if m.group(3):
					o['colors'].append([m.group(3), 'none'])
				else:
					o['colors'].append([m.group(2).strip(), names[m.group(1)]])
	o['tikz'], o['tikzedges'] = tikz(dt.tikznode(funcsep=fs))
	o['tmat'], o['tmatedges'] = tikzmatrix(dt.tikzmatrix(funcsep=fs))
	if inp['cont']:
		o['qtree'] = qtree(dt.tikzqtree())
	if inp['long']:
		o['wrap'] = cutlines(nfc(dt.text(unicodelines=True,
				maxwidth=inp['maxwidth'])))
	o['unchanged'] = inp['how'] == 'words' or T.enc(arg) == inp['t']
	return o


def dodep(inp, M):
	import xml.etree.ElementTree as ET
	n = len(inp['words'])
	if inp['conll']:
		obj = M.DrawDependencies.fromconll('\n'.join('\t'.join(map(str, (
				a + 1, inp['words'][a], '_', inp['tags'][a], '-', '_',
				inp['heads'][a], inp['rels'][a], '_', '_')))
				for a in range(n)) + '\n\n')
	else:
		obj = M.DrawDependencies(inp['words'], inp['tags'], [
				(a + 1, inp['rels'][a], inp['heads'][a]) for a in range(n)])
	text = obj.svg()
	words = re.findall(r'<text class="word w(\d+)" x=(\d+) y=\d+ '
			r'[^>]*>([^<]*)</text>', text)
	tags = re.findall(r'<text class="tag w(\d+)" x=(\d+) y=\d+ '
			r'[^>]*>([^<]*)</text>', text)
	assert [int(a) for a, _, _ in words] == list(range(n + 1)), words
	assert [int(a) for a, _, _ in tags] == list(range(1, n + 1)), tags
	arcs = []
	labs = re.findall(r'<text class="dependency w(\d+) w(\d+)" [^>]*>'
			r'([^<]*)</text>', text)
	for m, lab in zip(re.finditer(r"<path class='edge w(\d+) w(\d+)' "
			r"d='M(\d+),(\d+) C-?\d+,(-?\d+) -?\d+,-?\d+ (\d+),\d+'", text),
			labs):
		assert m.groups()[:2] == lab[:2]
		arcs.append(dict(head=int(m.group(1)), dep=int(m.group(2)),
				label=lab[2], x1=int(m.group(3)), top=int(m.group(5)),
				x2=int(m.group(6))))
	return dict(words=[a for _, _, a in words], tags=[a for _, _, a in tags],
			x=[int(a) for _, a, _ in words], arcs=arcs)


def len_(a):
	return len(a[0])


def docli(inp, M):
	from discodop import cli, treebank
	fmt = 'export'
	items = []
	with open('x.export', 'w', encoding='utf8') as f:
		for n, t in enumerate(inp['trees'], 1):
			tree = T.dec(t)
			sent = ['w%d' % a for a in range(len(T.leaves(t)))]
			cmt = 'c%d' % n if inp['cmt'] else None
			f.write(treebank.writetree(tree, sent, str(n), fmt, comment=cmt))
	for key, item in treebank.NegraCorpusReader('x.export').itertrees():
		items.append((key, item))
	if inp['lim']:
		items = items[:inp['lim']]
	want = []
	for key, item in items:
		if inp['out'] == 'frontier':
			want.append('%s. %s %s' % (key, M.frontier(item.tree, item.sent),
				item.comment))
			continue
		dt = M.DrawTree(item.tree, item.sent)
		want.append('%s. %s' % (key, item.comment))
		want.append({'text': lambda: dt.text(unicodelines=True),
				'html': lambda: dt.text(unicodelines=True, html=True),
				'svg': dt.svg,
				'tikznode': lambda: dt.tikznode() + '\n',
				'tikzmatrix': lambda: dt.tikzmatrix() + '\n'}[inp['out']]())
	argv = ['discodop', 'treedraw', 'x.export', '--plain']
	if inp['out'] == 'frontier':
		argv.append('--frontier')
	elif inp['out'] == 'html':
		argv = argv[:-1] + ['--output=html']
	else:
		argv.append('--output=' + inp['out'])
	if inp['lim']:
		argv.append('--numtrees=%d' % inp['lim'])
	cli.argv[:] = argv
	buf = io.StringIO()
	with contextlib.redirect_stdout(buf):
		cli.treedraw()
	got = buf.getvalue()
	for a in sorted(M.DrawTree.templates.values(), reverse=True,
			key=len_):
		for b in a:
			got = got.replace(b + '\n', '')
	return dict(got=got, want='\n'.join(want) + '\n')
