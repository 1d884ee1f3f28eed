"""Annotated trees for the specification of treebank formats: JSON encoding,
random generation, and independent writers for the formats."""
from xml.sax.saxutils import quoteattr, escape as xesc
import trees as T

NONE = '--'


def encann(t):
	"""Tree object with source fields -> JSON."""
	if isinstance(t, int):
		return T.term(t)
	src = t.source
	x = []
	f = m = e = NONE
	name = ''
	if src:
		src = list(src) + [None] * (6 - len(src))
		e, m, f = (src[a] or NONE for a in (1, 3, 4))
		if isinstance(src[0], str) and src[0].startswith('#') and not (
				isinstance(t[0], int)):
			name = src[0][1:]
		x = [[src[a], str(src[a + 1])] for a in range(6, len(src), 2)]
	return dict(l=t.label, i=-1, k=[encann(c) for c in t],
			f=f, m=m, e=e, id=name, x=x)


def decann(d):
	"""JSON -> ParentedTree with source fields."""
	from discodop.tree import ParentedTree
	if d['i'] >= 0:
		return d['i']
	t = ParentedTree(d['l'], [decann(c) for c in d['k']])
	if d.get('nosource'):
		return t
	t.source = ['#' + d['id'] if d['id'] else 'w', d['e'], d['l'], d['m'],
			d['f'], '0'] + [a for x in d['x'] for a in x]
	return t


FUNCS = ['SB', 'HD', 'OA', 'A-B', 'x', '--', '--']
MORPHS = ['Nom.Sg', '3.Sg', 'sg_x', 'N(a,b)', '--', '--', 'pl']
LEMMAS = ['be', 'Haus', 'a_b', '(', 'x/y', 'é', '--', '--']


def annotate(rng, t, root=True, sec=True):
	"""Add random annotation."""
	todo = [T.node(*[t['l'], t['k']])]
	names = ['%d' % a for a in rng.sample(range(500, 999), 60)]
	phr = []

	def ann(d, top):
		if d['i'] >= 0:
			return d
		pre = T.ispre(d)
		name = '' if pre or top else names.pop()
		if name:
			phr.append(name)
		return dict(l=d['l'], i=-1, k=[ann(c, False) for c in d['k']],
				f=NONE if top else rng.choice(FUNCS),
				m=rng.choice(MORPHS) if pre else NONE
					if top or rng.random() < 0.8 else rng.choice(MORPHS),
				e=rng.choice(LEMMAS) if pre else NONE, id=name, x=[])
	t = ann(todo[0], True)
	if phr and sec:
		for d in list(T.nodes(t))[1:]:
			while rng.random() < 0.15:
				d['x'].append([rng.choice(['SB', 'OA', '--']),
						rng.choice(phr)])
	return t


def pres(t):
	return sorted((d for d in T.nodes(t) if T.ispre(d)),
			key=lambda d: d['k'][0]['i'])


def export_rows(t, sent):
	"""Rows of fields; constituents are numbered by their names."""
	parent = {}
	for d in T.nodes(t):
		for c in d['k']:
			parent[id(c)] = '0' if d is t else d['id']
	rows = [[w, d['e'], d['l'], d['m'], d['f'], parent[id(d)]]
			+ [a for x in d['x'] for a in x]
			for w, d in zip(sent, pres(t))]
	for d in sorted((d for d in T.nodes(t) if d['id']),
			key=lambda d: d['id']):
		rows.append(['#' + d['id'], d['e'], d['l'], d['m'], d['f'],
				parent[id(d)]] + [a for x in d['x'] for a in x])
	return rows


def export_block(t, sent, key, comment=None, cols=6, sep='\t'):
	def row(r):
		if cols == 5:
			r = r[:1] + r[2:]
		return sep.join(r)
	return (['#BOS %s%s' % (key, ' %% ' + comment if comment else '')]
			+ [row(r) for r in export_rows(t, sent)] + ['#EOS %s' % key])


def tiger_xml(t, sent, key):
	term = {}
	for n, d in enumerate(pres(t), 1):
		term[id(d)] = '%s_%d' % (key, n)
	out = ['<s id=%s><graph root=%s><terminals>' % (quoteattr(key),
			quoteattr(key + '_VROOT'))]

	def secs(d):
		return ''.join('<secedge label=%s idref=%s/>' % (quoteattr(r),
				quoteattr(ref)) for r, ref in d)
	# secondary edges are listed at the constituent they come from
	incoming = {}
	for d in T.nodes(t):
		for r, name in d['x']:
			incoming.setdefault(name, []).append((r,
					term[id(d)] if T.ispre(d) else '%s_%s' % (key, d['id'])))
	for w, d in zip(sent, pres(t)):
		out.append('<t id=%s word=%s lemma=%s pos=%s morph=%s/>' % tuple(map(
				quoteattr, (term[id(d)], w, d['e'], d['l'], d['m']))))
	out.append('</terminals><nonterminals>')
	for d in sorted((d for d in T.nodes(t) if d['id'] or d is t),
			key=lambda d: d['id'] or 'Z'):
		name = d['id'] or 'VROOT'
		out.append('<nt id=%s cat=%s>' % (quoteattr('%s_%s' % (key, name)),
				quoteattr(d['l'])))
		for c in d['k']:
			out.append('<edge label=%s idref=%s/>' % (quoteattr(c['f']),
					quoteattr(term[id(c)] if T.ispre(c)
					else '%s_%s' % (key, c['id']))))
		out.append(secs(incoming.get(name, [])))
		out.append('</nt>')
	out.append('</nonterminals></graph></s>')
	return '\n'.join(out)


def tiger_file(sents):
	return ('<?xml version="1.0" encoding="UTF-8"?>\n<corpus id="x"><head/>'
			'<body>\n%s\n</body></corpus>\n' % '\n'.join(sents))


def alpino_xml(t, sent, comment=None, sentid='1'):
	"""Alpino XML with separately indexed empty nodes for secondary edges."""
	cnt = iter(range(1000))
	index = {}
	refs = {}
	# other names of attributes, empty constituents, several comments
	var = sum(len(a) for a in sent) + len(sent) * 5
	lemma = 'root' if var & 1 else 'lemma'
	postag = 'frame' if var & 2 else 'postag'
	pt = 'pos' if var & 4 else 'pt'
	for d in T.nodes(t):
		if d['x']:
			index[id(d)] = len(index) + 1
			for r, name in d['x']:
				refs.setdefault(name, []).append((r, index[id(d)]))

	def go(d, top):
		leaves = T.leaves(d)
		attrs = [('id', str(next(cnt))), ('begin', str(min(leaves))),
				('end', str(max(leaves) + 1)),
				('rel', 'top' if top else d['f'])]
		if id(d) in index:
			attrs.append(('index', str(index[id(d)])))
		if T.ispre(d):
			n = d['k'][0]['i']
			attrs += [(lemma, d['e']), (postag, d['m']), (pt, d['l']),
					('word', sent[n])]
			if pt == 'pt' and var & 8:
				attrs.append(('pos', 'other'))
			if postag == 'postag' and var & 8:
				attrs.insert(0, ('frame', 'other'))
			if lemma == 'lemma' and var & 8:
				attrs.insert(0, ('root', 'other'))
			return '<node %s/>\n' % ' '.join(
					'%s=%s' % (a, quoteattr(b)) for a, b in attrs)
		attrs.append(('cat', d['l'].lower()))
		kids = [go(c, False) for c in d['k']]
		for r, idx in refs.get(d['id'], ()) if d['id'] else ():
			kids.append('<node id="%d" begin="0" end="0" rel=%s '
					'index="%d"/>\n' % (next(cnt), quoteattr(r), idx))
		if var & 16:
			kids.insert(var % (len(kids) + 1), '<node id="%d" begin="0" '
					'end="0" rel="su" cat="np"/>\n' % (900 + int(attrs[0][1])))
		return '<node %s>\n%s</node>\n' % (' '.join(
				'%s=%s' % (a, quoteattr(b)) for a, b in attrs), ''.join(kids))
	return ('<?xml version="1.0" encoding="UTF-8"?>\n'
			'<alpino_ds version="1.5">\n%s<sentence sentid="%s">%s</sentence>'
			'\n%s</alpino_ds>\n' % (go(t, True), sentid, xesc(' '.join(sent)),
			'<comments>\n<comment>%s</comment>\n%s</comments>\n' % (
			xesc(comment), '<comment>x</comment>\n' if var & 8 else '')
			if comment else ''))


def alpino_names(t):
	"""Nodes of the Alpino document are numbered in order."""
	cnt = iter(range(1000))
	ren = {}
	extra = {}
	for d in T.nodes(t):
		for _, name in d['x']:
			extra[name] = extra.get(name, 0) + 1

	def go(d):
		n = next(cnt)
		if d['id']:
			ren[d['id']] = str(500 + n)
		for c in d['k']:
			if c['i'] < 0:
				go(c)
		for _ in range(extra.get(d['id'], 0)):
			next(cnt)
	go(t)
	return ren


def ftb_xml(t, sent, nb):
	def go(d, top):
		if T.ispre(d):
			return '<w cat=%s lemma=%s ee=%s fct=%s>%s</w>' % tuple(
					[quoteattr(d['l']), quoteattr(d['e']),
					quoteattr(d['m']), quoteattr(d['f'])]
					+ [xesc(sent[d['k'][0]['i']])])
		if d['l'].startswith('MW'):
			return '<w cat=%s compound="yes" fct=%s>%s</w>' % (
					quoteattr(d['l'][2:]), quoteattr(d['f']),
					''.join(go(c, False) for c in d['k']))
		return '<%s%s>%s</%s>' % (d['l'], ' nb="%s" textid="7"' % nb if top
				else ' fct=%s' % quoteattr(d['f']),
				''.join(go(c, False) for c in d['k']), d['l'])
	return go(t, True)


def ftb_file(sents):
	return ('<?xml version="1.0" encoding="UTF-8"?>\n<text>\n%s\n</text>\n'
			% '\n'.join(sents))
