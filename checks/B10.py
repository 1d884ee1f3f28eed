"""Named treebank transformations: each transforms random annotated trees as
specified, alone and in sequence, and is undone by its inverse; state splits
only extend labels; the relational-realizational transform."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit', 'containers']
SPEC = 'TbTrace'
MODELS = [('TbTransMC', 'TbTransMC.cfg')]
MODELS_THOROUGH = [('TbTransMC', 'TbTransMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['transformations apply to annotated ParentedTrees (function, '
		'morphology and lemma given for every node)',
		'lemmas without parentheses; no discourse marker (DM) at the start '
		'of a main clause with VP-FIN_NEGRA']
TIGER = dict(l=['S', 'VP', 'NP', 'PP', 'AP', 'PN', 'CS', 'CNP', 'AVP'],
		t=['NN', 'ART', 'ADJA', 'VVFIN', 'VAFIN', 'VVINF', 'PTKVZ', 'PPER',
			'APPR', 'KOUS', 'KON', 'CARD', 'ADV', 'ADJD', 'PRELS', 'PWS',
			'PTKANT'],
		f=['HD', 'SB', 'OA', 'MO', 'NK', 'AC', 'CJ', 'CD', 'CP', 'OC', 'SVP',
			'RC', 'PNC', 'EP', '--', 'MO-X'],
		m=['Nom.Sg', 'Acc', '*.Gen', '--', '3.Sg.Pres', 'Dat.Pl.*', 'Nomi'])
LASSY = dict(l=['SMAIN', 'INF', 'PP', 'NP', 'CONJ', 'MWU', 'AP'],
		t=['n', 'vnw', 'ww', 'vz', 'let', 'vg', 'lid'],
		f=['hd', 'su', 'obj1', 'mod', 'cnj', 'crd', 'det', 'SU', '--', 'mwp'],
		m=['N(soort,ev)', 'WW(pv,tgw)', 'WW(inf,vrij)', '--',
			'VNW(pers,pron)', 'LID(bep,stan)'])
PTB = dict(l=['S', 'VP', 'NP', 'PP', 'SBAR', 'ADJP', 'SBARQ', 'WHNP', 'QP'],
		t=['NN', 'IN', 'DT', 'VB', 'VBZ', 'TO', 'VBN', 'RB', 'CC', 'POS', 'MD'],
		f=['SBJ', 'TMP', 'ADV', '--', 'SBJ-TTL', 'LOC'], m=['--'])
FTB = dict(l=['NP', 'PP', 'VN', 'VPinf', 'COORD', 'MWADV', 'MWN', 'Ssub',
			'VPpart'],
		t=['N', 'P', 'V', 'D', 'A', 'C'],
		f=['SUJ', 'OBJ', '--'], m=['--'])
EXACT = {
	'APPEND-FUNC': TIGER, 'FUNC-NODE': TIGER, 'APPEND-MORPH': TIGER,
	'MORPH-NODE': TIGER, 'LEMMA-NODE': TIGER, 'MARK-YEAR': TIGER,
	'PUNCT': TIGER, 'FANOUT': TIGER, 'PARENT': TIGER, 'TAGPA': TIGER,
	'NP-PP': TIGER, 'S-RC': TIGER, 'NP': TIGER, 'VP-GF': TIGER,
	'MARK-UNARY': TIGER, 'PP-NP': TIGER, 'DP': TIGER, 'SBAR': TIGER,
	'NEST': TIGER, 'POS-PART': TIGER, 'VP-FIN_NEGRA': TIGER,
	'addUnary': TIGER, 'elimNKCJ': TIGER, 'addCase': TIGER,
	'nladdunary': LASSY, 'nlelimcnj': LASSY, 'ftbraisecompl': FTB,
	'ftbundocompounds': FTB}
# vocabulary that makes a transformation apply often
FOCUS = {
	'PP-NP': dict(l=['PP', 'AP'], t=['APPR', 'NN', 'PN'], f=['AC', 'NK', 'MO']),
	'DP': dict(l=['NP', 'AP'], t=['ART', 'NN', 'PN']),
	'SBAR': dict(l=['S', 'VP'], t=['KOUS', 'NN', 'VVFIN'], f=['CP', 'SB']),
	'NEST': dict(l=['NP', 'AVP'], t=['ADV', 'XN', 'YN'], f=['MO', 'SB']),
	'POS-PART': dict(l=['S', 'VP'], t=['VVFIN', 'PTKVZ', 'VVINF', 'ADV'],
		f=['SVP', 'HD', 'SB']),
	'VP-FIN_NEGRA': dict(l=['S', 'CS', 'VP', 'NP'], t=['VVFIN', 'VAFIN', 'NN'],
		f=['HD', 'SB', 'OA']),
	'addUnary': dict(l=['S', 'VP', 'PN', 'DL'], t=['NN', 'PPER', 'ADV']),
	'elimNKCJ': dict(l=['NP', 'CNP', 'S'], f=['NK', 'CJ', 'CD', 'SB']),
	'nladdunary': dict(l=['SMAIN', 'PP', 'INF'], t=['n', 'vnw', 'ww']),
	'nlelimcnj': dict(l=['CONJ', 'NP'], t=['n', 'let'],
		f=['cnj', 'crd', 'su']),
	'S-RC': dict(l=['S', 'NP'], f=['RC', 'SB']),
	'ftbraisecompl': dict(l=['VPinf', 'VPpart', 'Ssub', 'VPinf^x', 'NP'],
		t=['P', 'P', 'P+D', 'C', 'CS', 'PONCT', 'N', 'P^x']),
	'NP-PP': dict(l=['NP', 'PP']),
	}
SPLITS = [
	(TIGER, ['adjAttach', 'relPath', 'whFeat', 'nounSeq', 'properChunks',
		'markAP', 'subConjType', 'VPfeat', 'noHead', 'noSubj', 'lexPrep',
		'PUNCT', 'MARK-YEAR', 'S-RC', 'VP-GF', 'NP', 'NP-PP', 'PARENT',
		'TAGPA']),
	(LASSY, ['PUNCT', 'MARK-YEAR', 'nlpercolatemorph', 'nlmwuhead',
		'PARENT']),
	(PTB, ['S-WH', 'VP-HD', 'S-INF', 'MARK-UNARY', 'splitPercent',
		'splitPoss', 'splitCC', 'unaryDT', 'unaryRB', 'splitAux', 'splitAux2',
		'splitVP', 'splitVP3', 'splitSGapped', 'splitTMP', 'splitBaseNP',
		'dominatesV', 'splitNPADV', 'markDitransV', 'MARK-YEAR']),
	(FTB, ['markinf', 'markpart', 'markvn', 'coord1', 'de2', 'de3', 'markp1',
		'mwadvs', 'mwadvsel1', 'mwadvsel2', 'mwnsel1', 'mwnsel2', 'mwnsel3',
		'PUNCT', 'TAGPA'])]
# vocabulary that makes state splits apply often
SPLITFOCUS = {
	'relPath': dict(l=['S', 'S', 'NP'], t=['PRELS', 'NN', 'PWS'], f=['RC', 'SB']),
	'whFeat': dict(l=['NP', 'PP'], t=['PWAT', 'NN']),
	'nounSeq': dict(l=['NP'], t=['NN', 'NN', 'ART']),
	'adjAttach': dict(l=['AVP', 'S', 'NP', 'AP'], t=['ADV', 'NN', 'ADJD']),
	'markAP': dict(l=['AP', 'NP'], t=['ADJD', 'NN', 'ART']),
	'subConjType': dict(l=['S'], t=['KOUS', 'NN'], f=['SB', 'OC', 'HD']),
	'VPfeat': dict(l=['VP', 'S'], f=['OC', 'HD']),
	'noSubj': dict(l=['S'], t=['VVIMP', 'NN'], f=['CJ', 'CJ', 'CJ', 'SB', 'HD', 'EP']),
	'lexPrep': dict(t=['APPR', 'KON', 'NN'], f=['CD', 'HD']),
	'properChunks': dict(l=['NP'], f=['PNC', 'HD']),
	'nlmwuhead': dict(l=['MWU', 'NP']),
	'S-WH': dict(l=['SBAR', 'S', 'WHNP']),
	'VP-HD': dict(l=['VP', 'S'], t=['VB', 'TO', 'VBN', 'VBG', 'NN']),
	'S-INF': dict(l=['VP', 'S'], t=['VB', 'TO', 'NN']),
	'splitPoss': dict(l=['NP', 'PP'], t=['POS', 'NN']),
	'splitCC': dict(t=['CC', 'NN']),
	'unaryDT': dict(t=['DT', 'NN']), 'unaryRB': dict(t=['RB', 'NN']),
	'splitAux': dict(t=['VBZ', 'VB', 'NN', 'VBG']),
	'splitAux2': dict(l=['VP', 'S'], t=['VBZ', 'VBD', 'VBN', 'NN']),
	'splitVP': dict(l=['VP', 'S'], t=['VBZ', 'MD', 'TO', 'NN']),
	'splitVP3': dict(l=['VP', 'S'], t=['VBZ', 'MD', 'TO', 'NN']),
	'splitSGapped': dict(l=['S', 'S', 'NP', 'VP'], t=['CC', 'NN']),
	'splitTMP': dict(l=['NP', 'PP'], t=['NN', 'NNS', 'POS', 'IN'],
		f=['TMP', '--']),
	'splitNPADV': dict(l=['NP', 'NP', 'NP', 'PP'], t=['NN', 'POS', 'POS'],
		f=['ADV', '--', 'LOC-ADV']),
	'splitBaseNP': dict(l=['NP', 'PP']), 'dominatesV': dict(l=['VP', 'NP'],
		t=['NN', 'MD', 'VB', 'IN']),
	'markDitransV': dict(l=['NP', 'VP'], t=['VB', 'NN'], f=['TMP', '--']),
	'markinf': dict(l=['VN', 'VPinf'], t=['V', 'N']),
	'markpart': dict(l=['VN', 'VPpart'], t=['V', 'N']),
	'markvn': dict(l=['VN', 'NP']), 'coord1': dict(l=['COORD', 'NP']),
	'de2': dict(t=['P', 'N']), 'de3': dict(l=['PP', 'NP', 'COORD'],
		t=['P', 'P', 'N']),
	'markp1': dict(l=['PP', 'NP'], t=['P', 'N']),
	'mwadvs': dict(l=['MWADV', 'Ssub']),
	'mwadvsel1': dict(l=['MWADV'], t=['P', 'N']),
	'mwadvsel2': dict(l=['MWADV'], t=['P', 'N', 'D']),
	'mwnsel1': dict(l=['MWN'], t=['N', 'A']),
	'mwnsel2': dict(l=['MWN'], t=['N', 'P']),
	'mwnsel3': dict(l=['MWN'], t=['N', 'P']),
	}
FOCUSWORDS = {
	'lexPrep': ['in', 'Von', 'oder', 'ENTWEDER', 'entweder', 'als', 'x',
		'unters', 'Unter', 'noch', 'mit'],
	'splitCC': ['but', 'But', '&', 'and'],
	'splitAux': ['Is', "'s", 'been', 'HAVE', "'d", 'x', 'do', 'being', 'had'],
	'splitAux2': ["'s", "'s", 's', 'been', "'d", 'x', 'ai', 'HAVE'],
	'de2': ['de', 'De', 'du', 'Du', "d'", 'des', 'Des', 'dea', 'ede'],
	'de3': ['de', 'De', 'du', "d'", 'x', 'des'], 'mwnsel3': ['-', '-', 'x'],
	'splitPercent': ['%', 'x', '%%']}
SENT = ['in', 'von', '1998', '2015', '.', 'haus', '?', '!', ',', 'is', 'de',
		"'s", '%', 'but', '&', 'has', '-', 'oder', 'entweder', '1798']


def annotate(rng, t, fam, root=True, nohead=False, ptb=None):
	ptb = fam is PTB if ptb is None else ptb
	if t['i'] >= 0:
		return t
	pre = T.ispre(t)
	d = dict(l=t['l'] if root else rng.choice(fam['t'] if pre else fam['l']),
			i=-1, f='--' if root else rng.choice(fam['f']),
			m=rng.choice(fam['m']) if pre else '--',
			e=rng.choice(['lem', 'x']) if pre else '--', h=False,
			k=[annotate(rng, c, fam, False, nohead, ptb) for c in t['k']])
	if not pre and not nohead:
		rng.choice(d['k'])['h'] = True
	if not ptb and rng.random() < 0.05 and not nohead:
		for c in d['k']:
			if c['i'] < 0:
				c['h'] = rng.random() < 0.5
	return d


def shape(rng, n):
	return T.canonical(T.rtree(rng, n, ['A'], pdisc=rng.choice([0, 0.5]),
			punary=rng.choice([0, 0.15])))


DEEP = ('de3', 'splitNPADV', 'splitTMP', 'relPath', 'markvn')


FLAT = ('markDitransV', 'splitAux2', 'splitSGapped', 'subConjType', 'noSubj',
		'coord1', 'splitPoss')


def flat(rng, n):
	"""A phrase with words and phrases of a few words."""
	kids, a = [], 0
	while a < n:
		b = min(n, a + rng.choice([1, 1, 1, 2]))
		x = [T.node('A', [T.term(c)]) for c in range(a, b)]
		kids += [T.node('A', x)] if rng.random() < 0.6 else x
		a = b
	return T.node('ROOT', [T.node('A', kids)])


def ladder(rng, n):
	"""Nested phrases, branching to the left or to the right."""
	left = rng.random() < 0.5

	def pre(a):
		return T.node('A', [T.term(a)])
	t = pre(0 if left else n - 1)
	for a in range(1, n):
		t = T.node('A', [t, pre(a)] if left else [pre(n - 1 - a), t])
	return T.node('ROOT', [t])


def split(rng, name):
	"""A single state split, with vocabulary relevant to it."""
	fam = next(a for a, b in SPLITS if name in b)
	if rng.random() < 0.85:
		fam = dict(fam, **SPLITFOCUS.get(name, {}))
	names = [name]
	if name == 'S-INF':
		names = ['VP-HD', 'S-INF']
	n = rng.randint(1, 8)
	words = FOCUSWORDS.get(name, SENT)
	t = shape(rng, n)
	if name.startswith('mw'):  # flat
		t = T.canonical(T.rtree(rng, n, ['A'], pdisc=0, punary=0))
	if name in DEEP and rng.random() < 0.6:
		t = ladder(rng, n)
	elif name in FLAT and rng.random() < 0.5:
		t = flat(rng, n)
	return dict(op='split', t=strip(annotate(rng, t, fam,
			ptb='splitSGapped' in next(b for a, b in SPLITS if name in b))),
			w=[rng.choice(words) for _ in range(n)], names=names)


def compound(rng, label, n):
	"""Labels for the words of a compound, mostly of a regular pattern."""
	def some(*a):
		return [x for x in a if rng.random() < 0.5]

	def adjs():
		x = []
		while rng.random() < 0.4:
			x += rng.choice([['A'], ['A', 'C', 'A']])
		return x

	def pp():
		return [rng.choice(['P', 'P+D'])] + some('D', 'A') + ['N']
	for _ in range(40):
		if label == 'MWV':
			x = ['V'] + some('V') + some(*rng.sample(['P', 'A', 'D'], 3)) + [
					'N'] + some('N', 'P')
		else:
			x = some('D', 'A') + ['N'] + (adjs() if label == 'MWN' else [])
			if label == 'MWADV':
				x = [rng.choice(['P', 'P+D'])] + x
			if rng.random() < 0.5:
				x += pp() + adjs()
				while rng.random() < 0.4:
					x += some('C') + pp() + some('A')
		if len(x) == n:
			return x
	return [rng.choice(['N', 'A', 'P', 'D', 'C']) for _ in range(n)]


GOLD = ['A-qual', 'A-int', 'ADV', 'ADV-int', 'ADV-x', 'C-S', 'C-C', 'CL-obj',
		'CL-refl', 'CL-suj-1', 'D-def', 'D-ind-x', 'ET', 'I', 'N-C-ms', 'N-P',
		'P', 'PONCT-W', 'PREF', 'PRO-int', 'PRO-rel', 'PRO-pers', 'V-G', 'V-K',
		'V-S-3', 'V-W', 'V-Y', 'V-P', '--', '--', '--', 'x-y']


def goldpos(rng):
	n = rng.randint(1, 8)
	t = strip(annotate(rng, shape(rng, n), dict(FTB, t=['N', 'D', 'A', 'C',
			'CL', 'PONCT', 'P', 'ADV', 'PRO', 'V', 'ET', 'I', 'PREF'],
			m=GOLD), ptb=True))
	for x in T.nodes(t):
		if x['l'][:2] == 'MW' and not all(T.ispre(a) for a in x['k']):
			x['l'] = 'NP'  # compounds consist of words
	return dict(op='exact', t=t, w=[rng.choice(SENT) for _ in range(n)],
			names=['ftbmakegoldpos'])


def compounds(rng):
	n = rng.randint(2, 10)
	fam = dict(FTB, l=['MWN', 'MWN', 'MWV', 'MWADV', 'NP', 'MWP'])
	if rng.random() < 0.5:  # a large compound
		t = T.node('ROOT', [T.node('A', [T.node('A', [T.term(a)])
				for a in range(n)])])
		if rng.random() < 0.5:
			t['k'].append(T.node('A', [T.term(n)]))
			n += 1
	else:
		t = shape(rng, n)
	t = strip(annotate(rng, t, fam, ptb=True))
	for x in T.nodes(t):
		if x['l'][:2] == 'MW' and all(T.ispre(a) for a in x['k']):
			for a, b in zip(x['k'], compound(rng, x['l'], len(x['k']))):
				a['l'] = b
	return dict(op='exact', t=t, w=[rng.choice(SENT) for _ in range(n)],
			names=['ftbundocompounds'])


def withdm(t):
	return any(x['l'] == 'S' and x['k'][0]['i'] < 0
			and x['k'][0]['f'] == 'DM' for x in T.nodes(t))


def one(rng, t, name=None):
	n = len(T.leaves(t))
	w = [rng.choice(SENT) for _ in range(n)]
	r = rng.random()
	if r < 0.15:
		fam = rng.choice([TIGER, LASSY])
		t = annotate(rng, t, fam)
		o = dict(adj=rng.choice(['', 'MO', 'mod']),
				ignf=rng.sample(fam['f'], rng.choice([0, 0, 2])),
				ignc=rng.sample(fam['t'] + fam['l'], rng.choice([0, 0, 3])),
				left=rng.random() < 0.7, right=rng.random() < 0.7,
				ord=sorted(fam['f']))
		for x in T.nodes(t):
			x['f'] = x['f'].split('-')[0] or '--'
		o['ord'] = sorted(set(x['f'] for x in T.nodes(t)))
		o['ml'] = rng.choice([0, 1] if fam is TIGER else [0, 1, 2, 3])
		o['ordm'] = sorted(set(b for a in fam['m'] for b in re.split(
				r'[.,]', re.sub(r'.*\(|\)', '', a))))
		o['perc'] = (rng.sample(o['ordm'], 3) if rng.random() < 0.3 else [])
		return dict(op='rr', t=t, w=w, o=o)
	if r < 0.3:
		fam, names = rng.choice(SPLITS)
		names = rng.sample(names, rng.randint(1, 4))
		return dict(op='split', t=strip(annotate(rng, t, fam)), w=w,
				names=names)
	if name is None:
		name = rng.choice(sorted(EXACT))
	names = [name]
	fam = EXACT[name]
	if rng.random() < 0.7:
		fam = dict(fam, **FOCUS.get(name, {}))
	elif rng.random() < 0.5:
		names = rng.sample([a for a in sorted(EXACT) if EXACT[a] is fam],
				rng.randint(1, 3)) if fam is TIGER else [
				'nlelimcnj', 'nladdunary'] if fam is LASSY else names
	# inserted nodes come last; other transformations do not expect them
	names.sort(key=lambda a: a.endswith('-NODE') - (a == 'addUnary'))
	return dict(op='exact', t=strip(annotate(rng, t, fam)), w=w, names=names)


REV = dict(
	{'POS-PART': dict(l=['S', 'VP', 'VVFIN'], t=['VVFIN', 'PTKVZ', 'ADV'])},
	**{'VP-FIN_NEGRA': dict(l=['S', 'VP', 'CS'], t=['VVFIN', 'NN', 'VAFIN']),
	'DP': dict(l=['DP', 'NP', 'S'], t=['ART', 'NN']),
	'addUnary': dict(l=['NP', 'S', 'VP', 'ROOT'], t=['NN', 'PPER', 'ADV']),
	'nladdunary': dict(l=['NP', 'SMAIN', 'PP'], t=['n', 'vnw', 'ww']),
	'elimNKCJ': dict(l=['NP', 'CNP', 'S'], t=['NN', 'ART']),
	'nlelimcnj': dict(l=['CONJ', 'NP'], t=['n', 'let']),
	'APPEND-FUNC': dict(l=['NP-SB', 'S', 'VP-MO-X', '-LRB-', 'NP-', 'AP'],
		t=['NN', 'NN-HD', '-LRB-', 'ART']),
	'addCase': dict(l=['NP', 'S'], t=['NN/Nom', 'ART', 'ADJ/Gen/x', 'X/']),
	'APPEND-MORPH': dict(l=['NP', 'S/x'], t=['NN/Nom.Sg', 'ART', 'N/f[x]']),
	'FANOUT': dict(l=['NP', 'NP_2', 'S_12', 'VP_2_3'], t=['NN', 'A_2']),
	})


def reverse(rng):
	"""Trees as produced by a parser, not by the transformation itself."""
	name = rng.choice(sorted(REV))
	fam = dict(TIGER, **REV[name])
	t = shape(rng, rng.randint(1, 9))
	t = strip(annotate(rng, t, fam))
	for x in T.nodes(t):
		if rng.random() < 0.1:
			x['l'] += rng.choice(['^NP', '^<x>', '^'])

	def pv(d):
		if d['i'] >= 0:
			return d
		k = [pv(c) for c in d['k']]
		for a, (b, c) in enumerate(zip(k, k[1:])):
			if b and c and all(x['i'] < 0 and T.ispre(x) and len(k) > 2
					for x in (b, c)) and rng.random() < 0.6:
				kids = [dict(b, l='VVFIN', h=False), dict(c, l='PTKVZ', h=False)]
				rng.shuffle(kids)
				k[a:a + 2] = [dict(d, l='VVFIN', f='', k=kids), None]
		return dict(d, k=[c for c in k if c])
	if name == 'POS-PART':
		t = pv(t)
	n = len(T.leaves(t))
	return dict(op='rev', t=t, w=[rng.choice(SENT) for _ in range(n)],
			names=[name])


def strip(t):
	"""No function is the empty string."""
	for x in T.nodes(t):
		if x['f'] == '--':
			x['f'] = ''
	return t


def inputs(ctx):
	rng = ctx.rng
	for a in ctx.mine(ctx.gen('trees')):
		yield one(rng, a['t'])
	for _ in range(ctx.n(900, 9000)):
		yield reverse(rng)
	for _ in range(ctx.n(500, 5000)):
		yield compounds(rng)
		yield goldpos(rng)
	names = sorted(set(a for _, b in SPLITS for a in b))
	names += 3 * list(DEEP) + list(FLAT)
	for n in range(ctx.n(4500, 45000)):
		yield split(rng, names[n % len(names)])
	names = sorted(EXACT)
	for n in range(ctx.n(6000, 60000)):
		yield one(rng, shape(rng, rng.randint(1, 8)), names[n % len(names)])


def nontrivial(inp, out):
	return inp['op'] == 'rr' or out.get('trans') != out.get('rest')


def dec(d, cls):
	from discodop.tree import HEAD
	if d['i'] >= 0:
		return d['i']
	x = cls(d['l'], [dec(c, cls) for c in d['k']])
	x.source = ['w' if T.ispre(d) else '#500', d['e'], d['l'], d['m'],
			d['f'] or '--', '0']
	if d['h']:
		x.type = HEAD
	return x


def enc(t):
	if isinstance(t, int):
		return T.term(t)
	f = t.source[4] if t.source else ''
	return dict(l=t.label, i=-1, f='' if f in ('--', None) else f,
			k=[enc(c) for c in t])


def encraw(t):
	if isinstance(t, int):
		return T.term(t)
	return dict(l=t.label, i=-1, f='', k=[encraw(c) for c in t])


def execute(inp):
	from discodop.tree import ParentedTree, Tree
	from discodop import treebanktransforms as tt
	sent = list(inp['w'])
	if inp['op'] == 'rr':
		o = inp['o']
		t = dec(inp['t'], Tree)
		r = tt.rrtransform(t, morphlevels=o['ml'],
				percolatefeatures=o['perc'] or None,
				adjunctionlabel=o['adj'] or None,
				ignorefunctions=o['ignf'], ignorecategories=o['ignc'],
				adjleft=o['left'], adjright=o['right'])[0]
		trans = encraw(r)
		return dict(trans=trans, rest=enc(
				tt.rrbacktransform(r, adjunctionlabel=o['adj'] or None)))
	t = dec(inp['t'], ParentedTree)
	names = inp['names']
	if inp['op'] == 'exact' or inp['op'] == 'split':
		t = tt.transform(t, sent, names)
	trans = enc(t)
	# the inverse needs a list of compounds that is not distributed
	names = [a for a in names if a != 'ftbundocompounds']
	return dict(trans=trans, rest=enc(tt.reversetransform(t, sent, names)))
