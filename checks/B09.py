"""Head rules and dependencies: in the model, heads of all small trees under
all small rule tables assigned in any order; the real rule file reader, head
finder, modifier rules, dependency conversion and writers on enumerated and
random trees with random rule files."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import gens
MODULES = ['bit', 'containers']
SPEC = 'HeadsTrace'
MODELS = [('HeadsMC', 'HeadsMC.cfg')]
MODELS_THOROUGH = [('HeadsMC', 'HeadsMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['at most one child is marked as head beforehand',
		'every terminal has a preterminal of its own']
DIRS = ['LEFT', 'RIGHT', 'LEFT-TO-RIGHT', 'RIGHT-TO-LEFT', 'LEFTDIS',
		'RIGHTDIS']
LABS = ['NP', 'np', 'VP', 'Sint', 'S', 'CC', 'PP-LOC', 'N[x]', 'CONJP', 'NP[a]']
TAGS = ['N', 'V', 'cc', 'CC', ',', '$.', 'N[sg]', 'Det', 'PUNCT']
FUNCS = ['', '', '', '--', 'HD', 'SBJ', 'hd', 'NP-HD', 'MOD', 'SBJ-TMP', 'mod']


def fields(d, f, h):
	lab = d['l'].upper()
	return dict(d, u=lab, b=d['l'].split('[')[0].upper(),
			m=d['l'].split('-', 1)[0].upper(), h=h, f=f,
			fs=[] if f == '' else f.upper().split('-'))


def decorate(rng, t, pf, ph):
	def walk(d, h):
		if d['i'] >= 0:
			return d
		hd = (rng.randrange(len(d['k'])) if not T.ispre(d)
				and rng.random() < ph else -1)
		d = dict(d, k=[walk(c, n == hd) for n, c in enumerate(d['k'])])
		return fields(d, rng.choice(FUNCS) if rng.random() < pf else '', h)
	return walk(t, False)


def mixcase(rng, s):
	return rng.choice([s, s.lower(), s.title()])


def rules(rng):
	parents = [a.upper() for a in LABS] + ['ROOT', 'A', 'B']
	heads = sorted({a.split('[')[0].upper() for a in LABS + TAGS} | {'A', 'B', 'P'})
	lines, txt = [], []
	for _ in range(rng.choice([0, 2, 6, 15, 25])):
		lab = rng.choice(parents)
		known = [a for a, _, _ in lines if a != lab]
		if known and rng.random() < 0.1:
			lines.append([lab, 'LIKE', [rng.choice(known)]])
		else:
			lines.append([lab, rng.choice(DIRS), rng.sample(heads,
					rng.choice([0, 1, 1, 2, 3, 6]))])
		txt.append(rng.choice([' ', '\t', '  ']).join(
				mixcase(rng, a) for a in lines[-1][:2] + lines[-1][2])
				+ rng.choice(['', ' ']))
		if rng.random() < 0.1:
			txt.append(rng.choice(['', '  ', '% comment', '%NP left N']))
	return lines, '\n'.join(txt) + '\n'


def modrules(rng):
	if rng.random() < 0.5:
		return [], ''
	labs = ['*', 'NP', 'VP', 'SINT', 'S', 'ROOT', 'A', 'PP']
	res = []
	for lab in rng.sample(labs, rng.randint(1, 5)):
		mods = []
		for _ in range(rng.randint(1, 3)):
			mods.append([rng.choice(['*', 'NP', 'N', 'VP', 'PP', 'P', 'A']),
				rng.choice(['', '', '*', 'MOD', 'SBJ', 'HD'])])
			if mods[-1] == ['*', '']:
				mods[-1][1] = 'MOD'
		res.append([lab, mods])
	return res, ''.join('%s %s\n' % (mixcase(rng, a), ' '.join(mixcase(rng,
			x + ('-' + y if y else '')) for x, y in b)) for a, b in res)


def one(rng, t):
	if rng.random() < 0.2:
		t = T.relabel(t, lambda d: rng.choice(['A', 'B', 'A$', 'NP>$']))
		t = decorate(rng, t, 0, 1)
		return dict(op='save', t=t, tail=rng.choice(['', '$', '$']),
				lmu=rng.random() < 0.4, h=rng.choice([0, 1, 2, 999]),
				markhead=rng.random() < 0.3, dir=rng.random() < 0.2)
	if rng.random() < 0.8:
		t = T.relabel(t, lambda d: rng.choice(TAGS if T.ispre(d) else LABS))
	t = decorate(rng, t, rng.choice([0, 0, 0.3]), rng.choice([0, 0, 0.2]))
	lines, txt = rules(rng)
	mods, mtxt = modrules(rng)
	return dict(op='mark', t=t, lines=lines, txt=txt, mods=mods, mtxt=mtxt,
			sent=['w%d' % rng.randrange(9) for _ in T.leaves(t)])


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield one(rng, a['t'])
	for _ in range(ctx.n(2500, 25000)):
		n = rng.randint(1, rng.choice([6, 10, 16, 40]))
		yield one(rng, T.rtree(rng, n, ['A', 'B', 'VP'],
				punary=rng.choice([0, 0.2, 0.5]),
				pdisc=rng.choice([0, 0.3, 0.8])))


def encty(t):
	from discodop import tree as D
	ty = {D.HEAD: 'H', D.COMPLEMENT: 'C', D.MODIFIER: 'M'}
	if isinstance(t, int):
		return dict(l='', i=t, k=[], ty='')
	return dict(l=t.label, i=-1, k=[encty(c) for c in t],
			ty=ty.get(t.type, '' if t.type is None else repr(t.type)))


def decsrc(d):
	from discodop.tree import HEAD
	t = T.dec(d)

	def walk(a, b):
		if b['i'] >= 0:
			return
		if b['h']:
			a.type = HEAD
		if b['f']:
			a.source = ['--', '--', '--', '--', b['f'], '--']
		for x, y in zip(a, b['k']):
			walk(x, y)
	walk(t, d)
	return t


def execute(inp):
	from discodop import heads as M, treebank, treetransforms
	t = decsrc(inp['t'])
	if inp['op'] == 'save':
		treetransforms.binarize(t, headoutward=True, rightmostunary=True,
				leftmostunary=inp['lmu'], tailmarker=inp['tail'],
				horzmarkov=inp['h'], markhead=inp['markhead'],
				direction=inp['dir'])
		for a in t.subtrees():
			a.type = None
		M.saveheads(t, inp['tail'])
		treetransforms.unbinarize(t, expandunary=False)
		return dict(t=encty(t))
	with open('rules.txt', 'w', encoding='utf8') as out:
		out.write(inp['txt'])
	rules = M.readheadrules('rules.txt')
	mods = None
	if inp['mods']:
		with open('rules.txt', 'w', encoding='utf8') as out:
			out.write(inp['mtxt'])
		mods = M.readmodifierrules('rules.txt')
	M.applyheadrules(t, rules, mods)
	deps = treebank.dependencies(t)
	pos = [M.getheadpos(a) for a in t.subtrees()]
	heads, _unknown, pos1, _pos2 = M.headstats([t])
	mst = treebank.writedependencies(t, inp['sent'], 'mst')
	conll = treebank.writedependencies(t, inp['sent'], 'conll')
	total, num = treebank.deplen(deps)
	return dict(t=encty(t), deps=[list(a) for a in deps],
			pos=[-1 if a is None else a[0] for a in pos],
			len=[total, int(num)],
			conll=[a.split('\t') for a in conll.rstrip('\n').split('\n')],
			mst=[a.split('\t') for a in mst.rstrip('\n').split('\n')],
			heads=[[a, b, c] for a, x in heads.items() for b, c in x.items()],
			pos1=[[a, str(b), c] for a, x in pos1.items() for b, c in x.items()])


def nontrivial(inp, out):
	return len(inp['t']['k']) > 1
