"""Unknown word models: in the model, every test token is covered by a lexical
rule for all small training corpora; signatures, statistics, replaced words
and lexical rules of the real code on random words and corpora."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
MODULES = ['bit', 'containers']
SPEC = 'LexTrace'
MODELS = [('LexMC', 'LexMC.cfg')]
MODELS_THOROUGH = [('LexMC', 'LexMCBig.cfg')]
ASSUMPTIONS = ['words do not look like signatures or escaped brackets',
		'words are non-empty and use ASCII, Latin letters, a few other '
		'capitals, digits and punctuation marks']
KINDS = ['6', '4', 'base', 'ftb']
PARTS = (list('abcsyABZ0129.,\'-()/') + ['ed', 'ing', 'ion', 'er', 'est', 'ly',
		'ity', 'al', 's', 'ss', 'us', 'is', 'The', 'the', 'Mc', 'x', 'walk',
		'é', 'É', 'ité', 'ième', 'mètre', 'ôme', 'Ñ', 'ñ', '\u2010', '\u2014',
		'\u20ac', '\u0663', 'aux', 'ement', 'amment', 'iste', 'ette', 'ifs',
		'ières', 'euses', 'ent', 'ées', 'Œ', 'œ', 'ÿ', 'Ÿ', '19', '20', '00',
		'pole', 'aine', 'duc', 'chromie', '$', '#', '_', '"', '`'])
COMMON = ['the', 'The', 'a', 'bus', '(', ')', '.', ',', '1', '10', '2,5',
		'1987', '2001', '1970', '000', '1.2.3', '12-A', 'U.S.', 'Foo', 'foo',
		'FOO', 'walked', 'Walked', 'x(y', 'é', 'É', 'Été', 'été', '-', '%',
		'2099', '1899', '.5', "'99", '19870',
		'#lrb#', 'Un', 'un', 'as', 's', 'Us', 'es', 'ss', 'only', 'city',
		'used', 'early', 'B2-ed', 'Ab1ed', '1ed', 'A', 'S', 'ly', 'aring']
TAGS = [('NN', 'NN'), ('NN-SB', 'NN'), ('NN/Nom', 'NN'), ('NN-SB/Nom', 'NN'),
		('VB', 'VB'), ('VB^VP', 'VB'), ('VB_2', 'VB'), (':', ''),
		('-LRB-', ''), ('$,', '$,'), ('.', '.'), ('CD-HD^NP_2*1', 'CD')]


def enc(word):
	return [a if ord(a) < 128 else 'u%04X' % ord(a) for a in word]


def dec(chars):
	return ''.join(a if len(a) == 1 else chr(int(a[1:], 16)) for a in chars)


def randword(rng):
	x = rng.random()
	if x < 0.35:
		return rng.choice(COMMON)
	elif x < 0.45:
		return ''.join(rng.choice('0129.,\'') for _ in range(
				rng.randint(1, 5)))
	word = ''.join(rng.choice(PARTS) for _ in range(rng.randint(1, 4)))
	return word[:1].upper() + word[1:] if rng.random() < 0.2 else word


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(4000, 40000)):
		w = randword(rng)
		lex = [randword(rng), w]
		if rng.random() < 0.5:
			lex.append(w.lower())
		yield dict(op='sig', m=rng.choice(KINDS), w=enc(w),
				loc=rng.choice([0, 0, 1, 2]), lex=[enc(a) for a in lex])
	for _ in range(ctx.n(500, 6000)):
		pool = [randword(rng) for _ in range(rng.randint(1, 8))]
		pool += [a.lower() for a in pool if rng.random() < 0.3]
		tags = rng.sample(TAGS, rng.randint(1, 5))

		def word():
			return rng.choice(pool) if rng.random() < 0.85 else randword(rng)

		sents = [[(word(), ) + rng.choice(tags)
				for _ in range(rng.randint(1, 6))]
				for _ in range(rng.randint(1, 5))]
		test = [[word() for _ in range(rng.randint(1, 6))]
				for _ in range(3)]
		yield dict(op='model', m=rng.choice(KINDS),
				thr=rng.choice([0, 1, 1, 2, 3]),
				open=rng.choice([0, 1, 2, 2, 3, 5]),
				sents=[[dict(w=enc(w), t=t, b=b) for w, t, b in a]
					for a in sents],
				test=[[enc(w) for w in a] for a in test])


def execute(inp):
	import stubs
	stubs.install()
	from discodop import lexicon, runexp, grammar
	from discodop.parser import DictObj
	from discodop.tree import ParentedTree, unescape
	if inp['op'] == 'sig':
		func = lexicon.UNKNOWNWORDFUNC[inp['m']]
		return dict(sig=enc(func(dec(inp['w']), inp['loc'],
				{dec(a) for a in inp['lex']})))
	sents = [[(dec(a['w']), a['t']) for a in sent] for sent in inp['sents']]
	postagging = DictObj(method='unknownword', model=inp['m'],
			unknownthreshold=inp['thr'], openclassthreshold=inp['open'],
			simplelexsmooth=True)
	train, lexmodel = runexp.getposmodel(postagging, sents)
	sigs, words, lex, closed, tags, wordtags = lexmodel
	extra = lexicon.simplesmoothlexicon(lexmodel)
	trees = [ParentedTree('ROOT', [ParentedTree(t, [n])
			for n, (_, t) in enumerate(sent)]) for sent in sents]
	rules = grammar.treebankgrammar(trees, train, extrarules=extra)
	test = [list(lexicon.replaceraretestwords(
			[dec(w) for w in sent], postagging.unknownwordfun,
			postagging.lexicon, postagging.sigs)) for sent in inp['test']]

	def rule(r, w, b):
		assert r[1] == 'Epsilon', r
		w = 100 * float(w)
		return [r[0], enc(unescape(b)), int(round(w)) if abs(w - round(w)) < 1e-6
				else -1]
	return dict(sigs=[[enc(a), b] for a, b in sigs.items()],
			words=[[enc(a), b] for a, b in words.items()],
			lex=[enc(a) for a in lex], closed=[enc(a) for a in closed],
			tags=[[a, b] for a, b in tags.items()],
			wordtags=[[enc(a), t, b] for (a, t), b in wordtags.items()],
			train=[[enc(a) for a in sent] for sent in train],
			extra=[rule(r, w, yf[0]) for (r, yf), w in extra.items()],
			gram=[rule(r, w, yf[0]) for (r, yf), w in rules
				if r[1] == 'Epsilon'],
			known=[enc(a) for a in postagging.lexicon],
			pclosed=[enc(a) for a in postagging.closedclasswords],
			test=[[enc(a) for a in sent] for sent in test])
