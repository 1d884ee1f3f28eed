"""The parsing pipeline: grammars are extracted from small treebanks for
sequences of stages; for each sentence, the results of all stages are compared
with those defined by a model of the stages, the charts for the grammars, and
the transformations of trees."""
import gzip
import logging
import os
import re
import shutil
import sys
import tempfile
from fractions import Fraction
from math import log
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
MODULES = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'_fragments', 'disambiguation', 'estimates']
SPEC = 'PipeTrace'
MODELS = [('PipeMC', 'PipeMC.cfg')]
MODELS_THOROUGH = [('PipeMC', 'PipeMCBig.cfg')]
ASSUMPTIONS = ['probabilities are compared within 3 percent',
		'DOP stages use the same trees as a previous stage; their '
		'probability models are decided separately (G02, G03, P06)']
ALL = 100000


def stage(name, prune=0, same=0, kind='plain', **prm):
	"""Numbers of stages are 1-based; 0 means none."""
	prm = dict(prm)
	limited = (prune and 0 < prm.get('k', 50) < ALL) or 'beam' in prm
	return dict(name=name, kind=kind, prune=prune, same=same,
			split=bool(prm.get('split')), all=not limited, prm=prm)


def config(rng, cont):
	if cont and rng.random() < 0.4:  # tree-adjoining grammar
		first = rng.random() < 0.8
		a = stage('pcfg', mode='pcfg') if first else stage('plcfrs')
		prm = dict(kind='dop', mode=rng.choice(['pcfg', 'plcfrs']), dop='ostag',
				objective='mpp', k=rng.choice([1, 50, 1000]),
				packedgraph=rng.random() < 0.3, estimator='rfe')
		if rng.random() < 0.25:
			return [stage('tag', same=2, **prm), a]
		return [a, stage('tag', prune=rng.choice([0, 1]), same=1, **prm)]
	k = rng.choice([1, 5, 50, ALL, ALL])
	dop = rng.choice(['reduction', 'doubledop', 'dop1'])
	obj = rng.choice(['mpp', 'mpp', 'mpd', 'shortest', 'sl-dop',
			'sl-dop-simple', 'mcp'])
	dopprm = dict(dop=dop, objective=obj, k=k, m=rng.choice([1, 10, 1000]),
			packedgraph=False, maxdepth=rng.choice([1, 3]),
			estimator=rng.choice(['rfe', 'ewe', 'rfe']))
	dopkind = 'sldop' if obj == 'sl-dop' else 'dop'
	coarse = stage('pcfg', mode='pcfg', split=True,
			markorigin=rng.random() < 0.5)
	kind = rng.choice('ABCDEFGHI')
	if kind == 'A':
		return [coarse, stage('plcfrs', prune=1, k=k)]
	if kind == 'B':
		return [stage('plcfrs')]
	if kind == 'C':
		return [coarse, stage('plcfrs', prune=1, k=k),
				stage('dop', prune=2, same=2, kind=dopkind, **dopprm)]
	if kind == 'D':
		return [stage('plcfrs'), stage('dop', prune=rng.choice([0, 1]), same=1,
				kind=dopkind, **dopprm)]
	if kind == 'E':
		return [stage('plcfrs', m=10), stage('rr', prune=1, same=1,
				kind='rerank', mode='mc-rerank', k=10)]
	if kind == 'F':
		return [stage('plcfrs', m=10), stage('rr', prune=1, same=1,
				kind='rerank', mode='dop-rerank', dop='reduction', k=10)]
	if kind == 'G':  # a stage that does not depend on the one before
		return [coarse, stage('other'), stage('plcfrs', prune=1, k=k),
				stage('last', prune=rng.choice([2, 3]), k=rng.choice([1, ALL]))]
	if kind == 'H':  # parts of the search space are skipped
		return [stage('beam', beam=rng.choice([1, 2, 10])),
				stage('plcfrs'), stage('last', prune=1, k=k)]
	return [coarse, stage('other', mode='plcfrs', split=True,
			markorigin=coarse['prm']['markorigin'], prune=1, k=k),
			stage('plcfrs', prune=2, k=rng.choice([1, 50, ALL]))]


def inputs(ctx):
	rng = ctx.rng
	for _ in range(ctx.n(250, 3000)):
		labs = ['A', 'B', 'NP-SB', 'VP'][:rng.randint(1, 4)]
		words = ['a', 'b', 'c', 'Da', '(', 'é'][:rng.randint(2, 6)]
		unknown = rng.random() < 0.35
		if unknown:
			words += rng.sample(['dogs', 'walked', 'Cats', '12', '2001', 'a-b',
					'.', 'ing'], rng.randint(1, 6))
		pdisc = rng.choice([0, 0.4, 0.6])
		bank = []
		for _ in range(rng.randint(1, 5)):
			t = T.rtree(rng, rng.randint(1, 6), labs, tags=['N', 'V', '$,'],
					punary=0.1, pdisc=pdisc)
			if t['l'] != 'ROOT':
				t = T.node('ROOT', [t])
			t = T.canonical(t)
			bank.append(dict(t=t, sent=[rng.choice(words)
					for _ in T.leaves(t)]))
		sents = []
		for _ in range(rng.randint(1, 3)):
			b = rng.choice(bank)
			sent = [w.upper() if rng.random() < 0.05 else w for w in b['sent']]
			tags = [a['l'] for a in sorted((a for a in T.nodes(b['t'])
					if a['k'] and a['k'][0]['i'] >= 0),
					key=lambda a: a['k'][0]['i'])]
			r = rng.random()
			if r < 0.4:
				sent = [rng.choice(words + ['zz', 'Pigs'] * (
							rng.random() < 0.3 or unknown))
						for _ in range(rng.randint(1, 6))]
				tags = []
			elif r < 0.6:  # two sentences together
				b = rng.choice(bank)
				sent = (sent + b['sent'])[:7]
				tags = []
			elif r < 0.8:
				tags = []
			sents.append(dict(sent=sent, tags=tags))
		stages = config(rng, pdisc == 0)
		for a in stages:  # whether no analyses are discarded
			a['all'] &= not a['prune'] or stages[a['prune'] - 1]['all']
		yield dict(bank=bank, sents=sents, stages=stages, root='ROOT',
				canon=True, binarization=dict(h=rng.choice([1, 2, 99]),
					v=rng.choice([1, 1, 2]),
					factor=rng.choice(['left', 'right'])),
				unknown=dict(model=rng.choice(['4', '6', 'base', 'ftb']),
					thr=rng.choice([1, 1, 2]), open=rng.choice([1, 2, 3]))
					if unknown else {}, reload=rng.choice(['', '', 'read', 'cache']))


def weight(text):
	return Fraction(text) if '/' in text or '.' not in text and (
			'x' not in text and 'e' not in text) else (
			Fraction(float.fromhex(text)) if 'x' in text
			else Fraction(float(text)))


def readgrammar(prefix):
	"""The rules in the files, with weights from relative frequencies."""
	res = dict(start='ROOT', bin=[], un=[], lex=[])
	freq, total = [], {}
	with gzip.open(prefix + '.rules.gz', 'rt', encoding='utf8') as inp:
		for n, line in enumerate(inp):
			fs = line.rstrip('\n').split('\t')
			w = weight(fs[-1])
			lhs, yf, rhs = fs[0], fs[-2], fs[1:-2]
			total[lhs] = total.get(lhs, 0) + w
			freq.append(w)
			rule = dict(no=n, l=lhs, r1=rhs[0])
			if len(rhs) == 2:
				rule.update(r2=rhs[1],
						yf=[[int(b) for b in a] for a in yf.split(',')])
				res['bin'].append(rule)
			else:
				res['un'].append(rule)
	lexfreq = []
	with gzip.open(prefix + '.lex.gz', 'rt', encoding='utf8') as inp:
		for line in inp:
			word, rest = line.rstrip('\n').split('\t', 1)
			for a in rest.split('\t'):
				tag, w = a.split(' ')
				w = weight(w)
				total[tag] = total.get(tag, 0) + w
				lexfreq.append(w)
				res['lex'].append(dict(l=tag, word=word))
	nats = lambda w, l: round(-1000 * log(w / total[l]))
	for rule in res['bin'] + res['un']:
		rule['w'] = nats(freq[rule['no']], rule['l'])
	for rule, w in zip(res['lex'], lexfreq):
		rule['w'] = nats(w, rule['l'])
	return res


class Log(logging.Handler):
	def __init__(self):
		super().__init__(level=logging.ERROR)
		self.msgs = []

	def emit(self, record):
		self.msgs.append(record.getMessage()[:300])


def mknode(t):
	from discodop.tree import ParentedTree
	return ParentedTree(t['l'], [a['i'] if a['i'] >= 0 else mknode(a)
			for a in t['k']])


def prob(p):
	if isinstance(p, tuple):
		p = p[1]
	return round(-1000 * log(p)) if p > 0 else -1


def enc(t):
	from discodop.tree import ParentedTree
	return T.enc(ParentedTree(t) if isinstance(t, str) else t)


def tokens(postagging, sent, tags):
	"""The tokens as presented to the parser, and their signatures."""
	from discodop.lexicon import replaceraretestwords
	if postagging:
		sent = list(replaceraretestwords(sent, postagging.unknownwordfun,
				postagging.lexicon, postagging.sigs))
	res = [dict(w=w, lw=w.lower(), tag=tags[n] if tags else '')
			for n, w in enumerate(sent)]
	for n, a in enumerate(res):
		if (postagging and not tags and not a['w'].startswith('_UNK')
				and postagging.closedclasswords
				and a['w'] not in postagging.closedclasswords):
			a['sig'] = postagging.unknownwordfun(
					a['w'], n, postagging.lexicon)
	return res


def parse(prm, inp):
	from discodop.parser import Parser
	parser = Parser(prm)
	res = []
	handler = Log()
	logging.getLogger().addHandler(handler)
	try:
		for s in inp['sents']:
			out = dict(err='', res=[], log=[], toks=tokens(prm.postagging,
					s['sent'], s['tags']))
			handler.msgs = out['log']
			try:
				for r in parser.parse(list(s['sent']),
						tags=list(s['tags']) if s['tags'] else None):
					best = max(r.parsetrees, key=lambda a: a[1])
					out['res'].append(dict(name=r.name, tree=T.enc(r.parsetree),
							noparse=bool(r.noparse), prob=prob(r.prob),
							bin=enc(best[0]),
							all=[enc(a[0]) for a in r.parsetrees[:50]]))
			except Exception as err:
				out['err'] = repr(err)
				if os.environ.get('VF_TRACEBACK'):
					raise
			res.append(out)
	finally:
		logging.getLogger().removeHandler(handler)
	return res


def execute(inp):
	from discodop import runexp, parser
	from discodop.parser import DictObj, DEFAULTSTAGE, DEFAULTS
	tmp = tempfile.mkdtemp(prefix='vf')
	try:
		names = [''] + [a['name'] for a in inp['stages']]
		mkstages = lambda: [DictObj(dict(DEFAULTSTAGE, name=a['name'],
				prune=names[a['prune']] or False,
				beam_beta=1 - a['prm'].get('beam', 0) / 100,
				**{b: c for b, c in a['prm'].items() if b != 'beam'}))
				for a in inp['stages']]
		prm = DictObj({a: DictObj(b) if isinstance(b, dict) else b
				for a, b in DEFAULTS.items()})
		prm.update(stages=mkstages(), verbosity=0, resultdir=tmp)
		prm.binarization.update(inp['binarization'])
		trees = [mknode(a['t']) for a in inp['bank']]
		sents = [list(a['sent']) for a in inp['bank']]
		lexmodel = None
		if inp['unknown']:
			prm.postagging = DictObj(method='unknownword', retag=False,
					model=inp['unknown']['model'],
					unknownthreshold=inp['unknown']['thr'],
					openclassthreshold=inp['unknown']['open'],
					simplelexsmooth=True)
			tagged = [[(w, tag) for w, (_, tag) in zip(sent, sorted(t.pos()))]
					for t, sent in zip(trees, sents)]
			sents, lexmodel = runexp.getposmodel(prm.postagging, tagged)
			with open(tmp + '/closedclasswords.txt', 'w') as f:
				f.writelines(w + '\n' for w in lexmodel[3])
		runexp.getgrammars(runexp.dobinarization(trees, sents,
				prm.binarization, None), sents, prm.stages, 99, tmp, 1, lexmodel,
				'ROOT')
		out = dict(gs=[readgrammar(os.path.join(tmp, a['name']))
				if a['kind'] == 'plain' else dict(start='', bin=[], un=[],
				lex=[]) for a in inp['stages']], again=[])
		out['sents'] = parse(prm, inp)
		if inp['reload']:
			for _ in range(2 if inp['reload'] == 'cache' else 1):
				prm.stages = mkstages()
				parser.readgrammars(tmp, prm.stages, prm.postagging, None,
						top='ROOT',
						cache=inp['reload'] == 'cache')
			out['again'] = parse(prm, inp)
		return out
	finally:
		shutil.rmtree(tmp, ignore_errors=True)


def nontrivial(inp, out):
	return any(not b['noparse'] for a in out.get('sents', ())
			for b in a['res'])
