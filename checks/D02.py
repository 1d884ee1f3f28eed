"""Incremental reading: in the model, the line-based reader finds exactly the
groups of brackets in every text up to 9 symbols however divided in lines; the
real reader on random streams of brackets, export and Alpino XML."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import formats as F
MODULES = ['bit']
SPEC = 'SegmentTrace'
MODELS = [('SegmentMC', 'SegmentMCTRUE.cfg'), ('SegmentMC',
		'SegmentMCFALSE.cfg')]
MODELS_THOROUGH = [('SegmentMC', 'SegmentMCBigTRUE.cfg'), ('SegmentMC',
		'SegmentMCBigFALSE.cfg')]
ASSUMPTIONS = ['one format per stream',
		'every constituent has a label and a child; tokens of one tree have '
		'indices or none of them have']
LABS = ['S', 'NP', 'A-B', '.']
WORDS = ['a', 'the', 'x=y', '#LRB#', '1', '.', 'é', '%%', '#']


def show(rng, t, sent, disc):
	if t['i'] >= 0:
		return ('%d=%s' % (t['i'], sent[t['i']])) if disc else sent[t['i']]
	out = '(' + t['l']
	for c in t['k']:
		out += rng.choice([' ', ' ', ' ', '\n', '  ', '\n \n', '\t'])
		out += show(rng, c, sent, disc)
	return out + (')' if t['k'][-1]['i'] >= 0 else rng.choice(
			[')', ')', ')', ' )', '\n)']))


def piece(rng, robust, other):
	r = rng.random()
	if r < 0.62:
		disc = rng.random() < 0.4
		n = rng.randint(1, 6)
		t = T.rtree(rng, n, LABS, pdisc=0.4 if disc else 0)
		return show(rng, t, [rng.choice(WORDS) for _ in range(n)], disc)
	elif r < 0.7:
		return '(%s %s)' % (rng.choice(LABS), rng.choice(WORDS))
	elif r < 0.73 and not other:
		return '(%s\n%s)' % (rng.choice(LABS), rng.choice(WORDS))
	elif r < 0.76 and not other:
		return ')'
	return rng.choice(['text', 'a b', '12|', '#3', '; x', '\t comment'])


def clean(text, other):
	"""Exclude lines that belong to other formats."""
	return not any(a.lstrip().startswith(b) for a in text.splitlines()
			for b in ('%%', '#BOS', '#EOS', '#FORMAT', '<'))


def brk(rng):
	robust = rng.random() < 0.7
	other = rng.random() < 0.3
	while True:
		text = ''
		for _ in range(rng.randint(1, 7)):
			text += piece(rng, robust, other)
			text += rng.choice(['\n', '\n', '\n', ' ', '\n\n', '\tx\n', ' y ',
				'\n  \n'])
		r = rng.random()
		if r < 0.2 and not other:  # damage
			for _ in range(rng.randint(1, 2)):
				x = rng.randrange(len(text))
				if text[x] == ')' or rng.random() < 0.5:
					text = text[:x] + ')' + text[x:]
		if r > 0.8 and not other:  # incomplete tree at the end
			text += rng.choice(['(S (NP a) ', '(S', '(S (NP a', '(S a)(X '])
		if rng.random() < 0.5:
			text = text.rstrip() or 'x'
		if clean(text, other) and proper(text):
			break
	return dict(op='brk', text=text, robust=robust, other=other,
			strict=rng.random() < 0.2, crlf=rng.random() < 0.1)


def proper(text):
	"""No constituents without label or children; consistent indices."""
	import re
	for n, m in enumerate(re.finditer(r'\(', text)):
		if not re.match(r'\([^\s()]+\s+[^\s)]', text[m.start():]):
			# the last may be incomplete
			if text[m.start():].count('(') > 1 or ')' in text[m.start():]:
				return False
	# a space before a closing bracket is an empty token
	if re.search(r'[^\s(]\(|\)[^\s)]|[^)\s]\s+\)', text):
		return False
	# top level groups
	depth, start = 0, None
	for n, a in enumerate(text):
		if a == '(':
			if depth == 0:
				start = n
			depth += 1
		elif a == ')' and depth:
			depth -= 1
			if depth == 0:
				ws = [a for a in re.findall(r'(?<=\s)[^\s()]+', text[start:n])]
				idx = [re.match('([0-9]+)=', w) for w in ws]
				if any(idx) and not all(idx):
					return False
				if all(idx) and sorted(int(a.group(1)) for a in idx) != list(
						range(len(idx))):
					return False
	return True


def blocks(rng):
	fmt = rng.choice(['export', 'export', 'alpino'])
	strict = rng.random() < 0.2
	other = rng.random() < 0.3
	lines, want = [], []
	if fmt == 'export' and rng.random() < 0.5:
		lines += ['#FORMAT 4']
	if fmt == 'export' and rng.random() < 0.4:
		lines += ['#BOT WORDTAG', '1\tN\tY\tnoun', '2\tV\tN\tverb',
				'#EOT WORDTAG']
	for no in range(rng.randint(0, 4)):
		while rng.random() < 0.3:
			x = rng.choice(['', '', '%% comment', 'other text', '  '])
			if fmt == 'alpino' and x.startswith('%%'):
				continue
			lines.append(x)
			if other and not x.startswith('%%'):
				want.append(dict(k='text', t=T.term(0), sent=[], rest=x.rstrip()))
		n = rng.randint(1, 6)
		alp = fmt == 'alpino'
		t = F.annotate(rng, T.rtree(rng, n, ['S', 'VP', 'NP'],
				tags=['n', 'v', '.'] if alp else ['N', '$.', '$('],
				root='TOP' if alp else 'ROOT'))
		sent = [rng.choice(['a', '(', ')', 'é', '1=x', '#', '"', '&'])
				for _ in range(n)]
		cmt = rng.choice(['', 'cmt', 'a (b) c'])
		if alp:
			t['f'] = 'top'
			for d in T.nodes(t):
				if not T.ispre(d):
					d['m'] = '--'
			block = F.alpino_xml(t, sent, cmt or None).splitlines()
			if rng.random() < 0.3:
				block = block[1:]
		else:
			for d in T.nodes(t):
				if not T.ispre(d):
					d['e'] = '--'
			block = F.export_block(t, sent, str(no), cmt or None)
		if rng.random() < 0.12 and not alp:
			r = rng.random()
			lines += block[:-1] if r < 0.6 else [block[-1]]
			continue
		lines += block
		want.append(dict(k='tree', t=t, sent=sent, rest=cmt or 'None'))
	inblock = malformed = False
	for a in lines:
		if a[:5] in ('#BOS ', '#BOT ', '#EOS ', '#EOT '):
			malformed = malformed or inblock == (a[1] == 'B')
			inblock = a[1] == 'B'
	return lines, want, dict(op='blocks', fmt=fmt, strict=strict, other=other,
			malformed=malformed, eol=rng.random() < 0.7,
			want=want, lines=lines)


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(1000, 14000)):
		yield brk(rng)
		if rng.random() < 0.4:
			lines, want, inp = blocks(rng)
			opened = False
			bad = False
			for a in lines:  # other text inside of an incomplete block
				if a.startswith(('#BOS ', '#BOT ')):
					opened = True
				elif a.startswith(('#EOS ', '#EOT ')):
					opened = False
				elif opened and not ('\t' in a):
					bad = True
			if bad and inp['fmt'] == 'export':
				continue
			yield inp


def execute(inp):
	from discodop import treebank as M
	if inp['op'] == 'brk':
		lines = inp['text'].splitlines(True)
		if inp['crlf']:
			lines = [a.replace('\n', '\r\n') if a.strip() else a
					for a in lines]
		kw = dict(robust=inp['robust'])
	else:
		lines = [a + '\n' if inp['eol'] else a for a in inp['lines']]
		kw = {}
	items, err = [], False
	try:
		for tree, sent, rest in M.incrementaltreereader(iter(lines),
				strict=inp['strict'], othertext=inp['other'], **kw):
			if tree is None:
				items.append(dict(k='text', t=T.term(0), sent=[], rest=rest))
			else:
				items.append(dict(k='tree', sent=sent, rest=rest,
						t=T.enc(tree) if inp['op'] == 'brk'
						else F.encann(tree)))
	except ValueError:
		err = True
	if inp['op'] == 'brk' and inp['crlf']:
		for a in items:
			a['rest'] = a['rest'].replace('\r\n', '\n').replace('\r', '')
	return dict(items=items, err=err)
