"""DOP reduction: in the model, the reduction of every corpus of one or two small
trees assigns every fragment its weight; the rules obtained from the real code
are evaluated in the same way, on random corpora with repeated subtrees."""
import contextlib
import io
import os
import re
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
MODULES = ['bit']
SPEC = 'DopTrace'
MODELS = [('DopReductionMC', 'DopReductionMC.cfg')]
MODELS_THOROUGH = [('DopReductionMC', 'DopReductionMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['labels do not contain "@"', 'labels identify the fan-out',
		'preterminals dominate a single token']
ADDR = re.compile(r'^(.*)@(\d+-\d+)(\$?)$')


def split(lab):
	m = ADDR.match(lab)
	return (lab, '') if m is None else (m.group(1), m.group(2))


def numfrags(t):
	if T.ispre(t):
		return 1
	n = 1
	for a in t['k']:
		n *= numfrags(a) + 1
	return n


def total(t):
	return sum(numfrags(a) for a in T.nodes(t))


def setroot(t, lab):
	return dict(t, l=lab)


def corpus(rng, pool, maxfrags, binary=False):
	"""A corpus of small trees with repetitions of subtrees and trees."""
	bank, left = [], maxfrags
	words = rng.choice([['a', 'b', 'c'], ['a'], ['a', 'é', '@', '.']])
	labs = rng.choice([['A'], ['A', 'B'], ['ROOT', 'A'], ['VP', 'NP-SBJ',
		'X|<a,b>']])
	for _ in range(rng.randint(1, 4)):
		if bank and rng.random() < 0.25:
			a = rng.choice(bank)
			t, sent = a['t'], a['sent']
			if rng.random() < 0.5:
				sent = list(sent)
				sent[rng.randrange(len(sent))] = rng.choice(words)
		else:
			if rng.random() < 0.5:
				t = rng.choice(pool)['t']
			else:
				t = T.rtree(rng, rng.randint(1, 6), labs, tags=['N', 'V'][
						:rng.randint(1, 2)], punary=rng.choice([0, 0.2]),
						pdisc=rng.choice([0, 0, 0.6]), pflat=0.1)
			if binary:
				t = L.binarized(t)
			t = L.markfanout(t)
			sent = [rng.choice(words) for _ in T.leaves(t)]
		n = total(t)
		if n > left or sum(1 for _ in T.nodes(t)) > 11:
			continue
		left -= n
		bank.append(dict(t=t, sent=sent))
	return bank or [dict(t=T.node('ROOT', [T.node('N', [T.term(0)])]),
			sent=['a'])]


def inputs(ctx):
	rng = ctx.rng
	pool = list(ctx.gen('trees'))
	for a in list(ctx.mine(pool))[::1 if ctx.thorough else 3]:
		t = L.markfanout(a['t'])
		if total(t) <= 300:
			n = len(T.leaves(t))
			yield dict(op='dop', bank=[dict(t=t, sent=list('abcdefgh'[:n]))],
					packed=rng.random() < 0.5, extra=[], cli='')
	for _ in range(ctx.n(700, 12000)):
		packed = rng.random() < 0.5
		if rng.random() < 0.6:
			cli = rng.choice(['', '', '', 'rfe', 'ewe', 'shortest'])
			bank = corpus(rng, pool, rng.choice([30, 100, 200]), cli != '')
			tags = [(a['l'], b['sent']) for b in bank for a in T.nodes(b['t'])
					if T.ispre(a)]
			extra = []
			if rng.random() < 0.3 and not cli:
				for _ in range(rng.randint(1, 3)):
					e = dict(p=dict(r=[rng.choice(tags)[0], 'Epsilon'], yf=[],
						w=rng.choice(['a', 'b', 'Q'])), w=rng.randint(1, 4))
					if all(x['p'] != e['p'] for x in extra):
						extra.append(e)
			if cli:
				for a in bank:
					a['t'] = setroot(a['t'], 'ROOT')
			yield dict(op='dop', bank=bank, packed=packed, extra=extra, cli=cli)
		else:
			spined = rng.random() < 0.3
			bank = corpus(rng, pool, 3000)
			if spined:
				for a in bank:
					for n in range(len(a['sent'])):
						if rng.random() < 0.3:
							a['sent'][n] = 'None'
			yield dict(op='dec', bank=bank, packed=packed, spined=spined,
					counts=not spined, roots=[b is a['t'] for a in bank
						for b in T.nodes(a['t'])])


def enct(t):
	if isinstance(t, int):
		return dict(l='', a='', i=t, k=[])
	lab, addr = split(t.label)
	return dict(l=lab, a=addr, i=-1, k=[enct(a) for a in t])


def tofrac(x, junk):
	f = Fraction(x).limit_denominator(10 ** 9)
	if abs(float(f) - float(x)) > 1e-12 * abs(x) or f.denominator > 2 ** 31 - 1:
		junk.append(repr(x))
		return [0, 1]
	return [f.numerator, f.denominator]


def encrule(r, yf):
	labs = [split(a) for a in r]
	p = L.encprod((tuple(a for a, _ in labs), yf))
	return dict(p=p, a=[a for _, a in labs if _ != 'Epsilon'])


def execute(inp):
	from discodop import grammar, tree
	bank = [(T.dec(a['t'], tree.Tree), [None if w == 'None' else w
			for w in a['sent']]) for a in inp['bank']]
	before = [str(a) for a, _ in bank]
	if inp['op'] == 'dec':
		cls = (grammar.SpinedTreeDecorator if inp['spined']
				else grammar.TreeDecorator)
		dec = cls(memoize=inp['packed'])
		trees, ret = [], []
		fd, ntfd = {}, {}
		from collections import defaultdict
		fd, ntfd = defaultdict(int), defaultdict(int)
		for t, s in bank:
			d = dec.decorate(t, s)
			trees.append(enct(d))
			if inp['counts']:
				ret.append(grammar.nodefreq(t, d, fd, ntfd))
		return dict(trees=trees, ret=ret,
				fd=[list(split(a)) + [b] for a, b in fd.items()],
				ntfd=[list(split(a)) + [b] for a, b in ntfd.items()])
	junk = []
	if inp['cli']:
		return viacli(inp, bank, junk)
	extra = {L.decprod(a['p']): a['w'] for a in inp['extra']}
	rules, alt = grammar.dopreduction([a for a, _ in bank],
			[b for _, b in bank], packedgraph=inp['packed'],
			extrarules=extra or None)
	return dict(rules=[dict(encrule(r, yf), rfe=[int(w), 1] if w == int(w)
			else tofrac(w, junk), ewe=tofrac(float(a), junk),
			shortest=tofrac(float(b), junk), bon=tofrac(float(c), junk))
			for ((r, yf), w), a, b, c in zip(rules, alt['ewe'],
				alt['shortest'], alt['bon'])],
			junk=junk + [str((len(rules), len(alt['ewe'])))] * any(
				len(alt[x]) != len(rules) for x in ('ewe', 'shortest', 'bon')),
			same=before == [str(a) for a, _ in bank])


def viacli(inp, bank, junk):
	"""The weights requested are in the files, others from the function."""
	import stubs
	stubs.install()
	from discodop import grammar, cli, treebank, tree
	from discodop.treetransforms import canonicalize, addfanoutmarkers
	with open('bank.export', 'w', encoding='utf8') as out:
		for n, (t, s) in enumerate(bank, 1):
			t = tree.ParentedTree.convert(t)
			for a in t.subtrees():  # fan-out markers are added again
				a.label = re.sub(r'_\d+$', '', a.label)
			out.write(treebank.writetree(t, s, str(n), 'export'))
	argv = sys.argv, cli.argv
	sys.argv = cli.argv = ['discodop', 'grammar', 'dopreduction',
			'bank.export', 'g'] + ['--packed'] * inp['packed'] + (
			['--dopestimator=' + inp['cli']] if inp['cli'] != 'rfe' else [])
	try:
		with contextlib.redirect_stdout(io.StringIO()):
			cli.grammar()
	finally:
		sys.argv, cli.argv = argv
	written = {}
	for line in open('g.rules', encoding='utf8'):
		fields = line.rstrip('\n').split('\t')
		yf = tuple(tuple(int(b) for b in a) for a in fields[-2].split(','))
		written[tuple(fields[:-2]), yf] = fields[-1]
	for line in open('g.lex', encoding='utf8'):
		fields = line.rstrip('\n').split('\t')
		for a in fields[1:]:
			tag, w = a.split(' ')
			written[(tag, 'Epsilon'), (fields[0].replace('#LRB#', '(').replace(
					'#RRB#', ')'), )] = w
	rules, alt = grammar.dopreduction([a for a, _ in bank],
			[b for _, b in bank], packedgraph=inp['packed'])
	if len(written) != len(rules):
		junk.append('%d rules %d written' % (len(rules), len(written)))

	def num(x):
		return Fraction(x) if '/' in x else float(
				float.fromhex(x) if 'x' in x else float(x))
	res = []
	for ((r, yf), w), a, b, c in zip(rules, alt['ewe'], alt['shortest'],
			alt['bon']):
		if len(r) == 2 and r[1] == 'Epsilon':
			yf = (yf[0].replace('#LRB#', '(').replace('#RRB#', ')'), )
		x = num(written.get((r, yf), '0'))
		ws = dict(rfe=w, ewe=float(a), shortest=float(b), bon=float(c))
		ws[inp['cli']] = x
		res.append(dict(encrule(r, yf), **{k: tofrac(v, junk)
				for k, v in ws.items()}))
	return dict(rules=res, junk=junk, same=True)
