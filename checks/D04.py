"""Function tags, morphology and lemmas: decoration as a function of annotated
trees in the specification, compared with every combination of options of the
corpus readers, incremental reader, handlefunctions and writer."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import formats as F
MODULES = ['bit']
SPEC = 'FormatsTrace'
MODELS = [('FormatsMC', 'FormatsMC.cfg')]
MODELS_THOROUGH = [('FormatsMC', 'FormatsMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesSmall.cfg', 'small')]
ASSUMPTIONS = ['functions=remove together with morphology=add/replace: no '
		'hyphen in morphological tags; labels of different kinds joined by '
		'a hyphen, so tags themselves contain none']
LABS = ['S', 'VP', 'NP-SBJ', 'NP-SBJ-1', 'X=2', 'PP-LOC=1', '-NONE-', 'AP-2',
		'A', '-x-y', '=', '--', 'X=1-Y']
TAGS = ['N', '$.', '$[', '$(', 'V-X', 'ADJ', 'd', '-LRB-', '--', ',']
PTAGS = ['$[', 'N', '$.', 'V-X', 'ADJ', 'd', '-LRB-', '--', ',']
WORDS = ['a', 'the', 'x=y', 'é', '$.', 'b-c']


def inputs(ctx):
	rng = ctx.rng
	fns = ['no', 'add', 'replace', 'remove', 'between']
	mos = ['no', 'add', 'replace', 'between']

	def dec(t=None):
		fmt = rng.choice(['export', 'export', 'inc', 'tiger', 'alpino', 'ftb'])
		fn, mo, le = rng.choice(fns), rng.choice(mos), rng.choice(mos)
		if fmt == 'inc':
			le = 'no'
		labs, tags = LABS, TAGS
		if fmt == 'alpino':
			labs, tags = ['S', 'VP', 'NP-SBJ'], ['n', 'v-x', 'a']
		elif fmt == 'ftb':
			labs, tags = ['NP', 'VN', 'MWX'], ['N', 'V-a', 'P']
		if t is None or fmt == 'ftb':
			t = T.rtree(rng, rng.randint(1, 8), labs, tags=tags,
					pdisc=0 if fmt == 'ftb' else 0.3, root=dict(
					tiger='VROOT', ftb='SENT', alpino='TOP').get(fmt, 'ROOT'))
		else:
			t = T.relabel(t, lambda d: rng.choice(
					tags if T.ispre(d) else labs))
			t['l'] = dict(tiger='VROOT', alpino='TOP').get(fmt, 'ROOT')
		n = len(T.leaves(t))
		t = F.annotate(rng, t, sec=fmt in ('export', 'tiger'))
		if fmt == 'alpino':
			t['f'] = 'top'
		for d in T.nodes(t):
			if fmt in ('alpino', 'ftb') and not T.ispre(d):
				d['m'] = '--'
			if fn == 'remove':
				d['m'] = d['m'].replace('-', '_').replace('=', '_').replace(
						'__', '--')
				if mo == 'replace' and d['m'] == '--':
					d['m'] = 'x'
				elif mo == 'add' and d['m'] == '--':
					d['m'] = 'x'
			if not T.ispre(d):
				d['e'] = '--'
		return dict(op='dec', fmt='export' if fmt == 'inc' else fmt,
				inc=fmt == 'inc', t=t, fn=fn, mo=mo, le=le,
				sent=[rng.choice(WORDS) for _ in range(n)])
	for a in ctx.mine(ctx.gen('small')):
		if ctx.thorough or rng.random() < 0.4:
			yield dec(a['t'])
	for _ in range(ctx.n(700, 9000)):
		yield dec()
		n = rng.randint(1, 7)
		t = F.annotate(rng, T.rtree(rng, n, LABS, tags=PTAGS))
		t['f'] = rng.choice(F.FUNCS)
		if rng.random() < 0.5:
			yield dict(op='func', t=t, fn=rng.choice(fns), sent=[],
					pos=rng.random() < 0.6, root=rng.random() < 0.5)
		t = F.annotate(rng, T.rtree(rng, n, LABS, tags=PTAGS, pdisc=0),
				sec=False)
		if rng.random() < 0.5:
			yield dict(op='brk', t=t, fn=rng.choice(['no', 'remove', 'leave']),
				disc=rng.random() < 0.5,
				sent=[rng.choice(WORDS) for _ in range(n)])
		t = F.annotate(rng, T.rtree(rng, n, LABS, tags=PTAGS[1:] + [
				'N/sg', 'ADJ/x/y', '/'], pdisc=0.3))
		if rng.random() < 0.3:
			for d in T.nodes(t):
				d['m'] = '--'
		yield dict(op='wmorph', t=t, mo=rng.choice(['no', 'add', 'replace']),
				sent=[rng.choice(WORDS) for _ in range(n)])


def opt(a):
	return {'no': None}.get(a, a)


def execute(inp):
	from discodop import treebank as M
	sent, t, op = inp['sent'], inp['t'], inp['op']
	if op == 'func':
		x = F.decann(t)
		M.handlefunctions(opt(inp['fn']), x, pos=inp['pos'],
				root=inp['root'])
		return dict(t=T.enc(x))
	elif op == 'wmorph':
		text = M.writetree(F.decann(t), sent, '1', 'export',
				morphology=opt(inp['mo']))
		return dict(tab=[a.split('\t') for a in text.split('\n')[1:-2]])
	elif op == 'brk':
		from discodop.tree import writebrackettree, writediscbrackettree
		x = T.dec(T.relabel(t, lambda d: d['l'].replace(
				'(', '[')))
		with open('x.mrg', 'w', encoding='utf8') as f:
			f.write((writediscbrackettree if inp['disc']
					else writebrackettree)(x, sent))
		(_, item), = M.READERS['discbracket' if inp['disc'] else 'bracket'](
				'x.mrg', functions=opt(inp['fn'])).itertrees()
		return dict(t=F.encann(item.tree))
	kw = dict(functions=opt(inp['fn']), morphology=opt(inp['mo']))
	fmt, key = inp['fmt'], 's1'
	if fmt == 'export':
		lines = F.export_block(t, sent, key)
		if inp['inc']:
			(tree, sent, _), = M.incrementaltreereader(lines, **kw)
			return dict(t=T.enc(tree), sent=sent)
		text = '\n'.join(['#FORMAT 4'] + lines) + '\n'
	elif fmt == 'tiger':
		text = F.tiger_file([F.tiger_xml(t, sent, key)])
	elif fmt == 'ftb':
		text = F.ftb_file([F.ftb_xml(t, sent, key)])
	else:
		text = F.alpino_xml(t, sent, 'cmt')
	with open('x.txt', 'w', encoding='utf8') as f:
		f.write(text)
	(_, item), = M.READERS[fmt]('x.txt', lemmas=opt(inp['le']),
			**kw).itertrees()
	return dict(t=T.enc(item.tree), sent=item.sent)
