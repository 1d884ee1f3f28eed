"""Fragment extraction: in the model, the extraction algorithm finds exactly the
maximal common fragments of all pairs of small trees; fragments, counts and
occurrences reported for random treebanks are compared with the definitions."""
import contextlib
import io
import logging
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import trees as T
import lcfrs as L
import fragments as F
MODULES = ['bit', 'containers', '_fragments']
SPEC = {'cli': 'KernelCliTrace', 'rec': 'KernelTrace', 'pair': 'KernelTrace',
		'slice': 'KernelTrace', 'complete': 'KernelTrace',
		'work': 'KernelTrace'}
MODELS = [('KernelMC', 'KernelMC.cfg')]
MODELS_THOROUGH = [('KernelMC', 'KernelMCBig.cfg')]
GEN = [('GenTrees', 'GenTreesDisc.cfg', 'trees')]
ASSUMPTIONS = ['labels do not contain parentheses or spaces',
		'preterminals dominate a single token']
MANY = 99999


def tree(rng, disc, big=False):
	labs = rng.choice([['A'], ['A', 'B'], ['A', 'B', 'VP|<x.y>']])
	tags = rng.choice([['N'], ['N', 'V'], ['N', 'V', 'NP-X']])
	n = rng.randint(26, 36) if big else rng.randint(1, 7)
	t = T.rtree(rng, n, labs, tags=tags, punary=rng.choice([0, 0.2]),
			pdisc=rng.choice([0, 0.5]) if disc else 0, pflat=0.1)
	return T.node('ROOT', [t]) if rng.random() < 0.5 else t


def similar(rng, t):
	"""Change some labels or replace a subtree."""
	labs = [a['l'] for a in T.nodes(t)]

	def walk(a):
		if a['i'] >= 0:
			return a
		lab = rng.choice(labs) if rng.random() < 0.08 else a['l']
		return T.node(lab, [walk(b) for b in a['k']])
	return walk(t)


def bank(rng, disc, k=None, binary=True, big=False, like=()):
	res, left = [], 60
	words = rng.choice([['a', 'b', 'c'], ['a'], ['a', 'é', '.', '1=x', '2:2'],
			["''", '"', '-LRB-', 'x#y', '$'], ['a', ')', 'a(b']])
	for _ in range(k or rng.randint(1, 6)):
		old = res + list(like)
		if old and rng.random() < 0.4:
			a = rng.choice(old)
			t, sent = a['t'], list(a['sent'])
			if rng.random() < 0.6:
				t = similar(rng, t)
			if rng.random() < 0.7:
				sent[rng.randrange(len(sent))] = rng.choice(words)
		else:
			t = tree(rng, disc, big and not any(len(a['sent']) > 20
					for a in res))
			if binary:
				t = L.markfanout(L.binarized(t))
			sent = [rng.choice(words) for _ in T.leaves(t)]
		n = sum(1 for _ in T.nodes(t))
		if n > left and not (big and len(sent) > 20):
			continue
		left -= n
		res.append(dict(t=t, sent=sent))
	return res or [dict(t=T.node('A', [T.term(0)]), sent=['a'])]


def inputs(ctx):
	rng = ctx.rng
	for n in range(1, 30):
		if ctx.mine([n]):
			for m in (1, 2, 3, 8):
				yield dict(op='work', n=n, numproc=m)
	pool = list(ctx.gen('trees'))
	for a in list(ctx.mine(pool))[::1 if ctx.thorough else 4]:
		b = rng.choice(pool)
		ts = [L.markfanout(L.binarized(x['t'])) for x in (a, b)]
		ts = [dict(t=t, sent=[rng.choice('ab') for _ in T.leaves(t)])
				for t in ts]
		yield dict(op='rec', bank=ts + ts[:rng.randint(0, 1)], numproc=1,
				disc=True, mode='indices', maxdepth=rng.randint(0, 3),
				maxfrontier=rng.choice([MANY, 2, 1, 0]))
	for _ in range(ctx.n(180, 4000)):
		disc = rng.random() < 0.6
		depth = rng.choice([0, 1, 1, 2, 3])
		yield dict(op='rec', bank=bank(rng, disc), disc=disc,
				numproc=2 if rng.random() < 0.04 else 1,
				mode=rng.choice(['counts', 'indices']), maxdepth=depth,
				maxfrontier=rng.choice([MANY, MANY, 3, 2, 1, 0]))
	for _ in range(ctx.n(350, 6000)):
		disc = rng.random() < 0.5
		two = rng.random() < 0.5
		x = bank(rng, disc, big=rng.random() < 0.1)
		y = bank(rng, disc, like=x, big=rng.random() < 0.1) if two else x
		adj = not two and rng.random() < 0.2
		sl = not adj and rng.random() < 0.3
		a1, a2 = sorted(rng.sample(range(len(x) + 1), 2))
		b1, b2 = sorted(rng.sample(range(len(y) + 1), 2))
		yield dict(op='pair', bank=x, bank2=y, two=two, adjacent=adj, disc=disc,
				mode=rng.choice(['approx', 'counts', 'indices', 'nodes']),
				where=rng.choice([1, 2]), sliced=sl, a1=a1 if sl else 0,
				b1=a2 if sl else MANY, a2=b1 if sl else 0,
				b2=b2 if sl else MANY,
				tags=['N'] if not adj and rng.random() < 0.2 else [])
	for _ in range(ctx.n(150, 3000)):
		disc = rng.random() < 0.5
		x = bank(rng, disc)
		y = bank(rng, disc, like=x, k=rng.randint(1, 9))
		a, b = sorted(rng.sample(range(len(y) + 1), 2))
		yield dict(op='slice', bank=x, bank2=y, disc=disc, start=a, stop=b,
				mode=rng.choice(['counts', 'indices', 'nodes']),
				limit=rng.choice([0, 0, 1, 2, 5]), start2=0)
	for _ in range(ctx.n(150, 3000)):
		disc = rng.random() < 0.5
		y = bank(rng, disc, big=rng.random() < 0.1)
		fr = [f for f in F.frags(rng, y, rng.randint(1, 5))
				if any(w != 'None' for w in f['sent'])]
		fr = [f for f in fr if binaryfrag(f['t'])]
		if not fr:
			continue
		if rng.random() < 0.2:
			fr[0] = dict(fr[0], sent=['zz' if w != 'None' else w
					for w in fr[0]['sent']])
		yield dict(op='complete', bank=fr, bank2=y, disc=disc,
				mode=rng.choice(['counts', 'indices', 'nodes']))
	for _ in range(ctx.n(120, 2500)):
		yield cliinput(rng)


def binaryfrag(t):
	return all(len(a['k']) <= 2 or a['k'][0]['i'] >= 0 for a in T.nodes(t))


def cliinput(rng):
	fmt = rng.choice(['bracket', 'bracket', 'discbracket', 'export'])
	disc = fmt != 'bracket'
	k = rng.choice([1, 1, 1, 2, 2, 3])
	big = rng.random() < 0.1
	large2 = k == 2 and rng.random() < 0.5
	banks = [bank(rng, disc, binary=False, big=big, k=rng.randint(2, 5))]
	for _ in range(k - 1):
		banks.append(bank(rng, disc, binary=False, like=banks[0],
				big=large2 or rng.random() < 0.1))
	if fmt == 'export':
		for a in banks:
			for b in a:
				if b['t']['l'] != 'ROOT':
					b['t'] = T.node('ROOT', [b['t']])
	for a in banks:
		for b in a:
			b['t'] = T.canonical(b['t'])
	batch = k > 2 or k == 2 and rng.random() < 0.3
	frags = []
	if k > 1 and rng.random() < 0.3 and fmt != 'export':
		frags = [f for f in F.frags(rng, [dict(b, t=L.markfanout(b['t']))
				for b in banks[1]], 4) if f['sent'][0] != 'None'
				and binaryfrag(f['t'])]
		if frags:
			for a in banks[1:]:
				for b in a:
					b['t'] = L.markfanout(b['t'])
	complete = bool(frags)
	mode = rng.choice(['counts', 'counts', 'indices', 'relfreq'] + (
			[] if complete else ['approx', 'nofreq']))
	return dict(op='cli', fmt=fmt, banks=banks, batch=batch, frags=frags,
			complete=complete, mode=mode,
			cover=rng.choice([[], [], [1, MANY], [2, MANY], [2, 1]])
			if not complete and not batch else [],
			adjacent=not complete and rng.random() < 0.15,
			debin=rng.random() < 0.2, alt=not disc and rng.random() < 0.2,
			numproc=2 if not batch and rng.random() < 0.04 else 1,
			numtrees=rng.choice([0, 0, 0, 2]) if not complete else 0)


def parse(s, disc):
	"""Fragment as string to tree and words; positions of frontiers are
	explicit when disc is true, and consecutive otherwise."""
	sent, stack = {}, [[]]
	toks = re.findall(r'[()]|[^ ()]+', s)
	cnt = 0
	for n, tok in enumerate(toks):
		if tok == '(':
			stack.append([])
		elif tok == ')':
			a = stack.pop()
			if len(a) == 1 and not disc:
				a.append(T.term(cnt))
				cnt += 1
			if len(a) < 2:
				raise ValueError('no children: %r' % s)
			stack[-1].append(T.node(a[0], a[1:]))
		elif toks[n - 1] == '(':
			stack[-1].append(tok)
		else:
			p = cnt
			if disc:
				p, tok = tok.split('=', 1)
				p = int(p)
			cnt += 1
			if tok:
				sent[p] = tok.replace('#LRB#', '(').replace('#RRB#', ')')
			stack[-1].append(T.term(p))
	if len(stack) != 1 or len(stack[0]) != 1:
		raise ValueError('not a tree: %r' % s)
	t = stack[0][0]
	return dict(t=t, s=[sent.get(p, 'None')
			for p in range(max(T.leaves(t)) + 1)])


def decbank(bank, disc=True):
	from discodop.tree import ParentedTree
	return ([T.dec(a['t'], ParentedTree) for a in bank],
			[[None if w == 'None' else w for w in a['sent']] for a in bank])


def result(frags, counts, mode, disc, at=None):
	res = []
	for n, f in enumerate(frags):
		a = dict(parse(f, disc), n=-1, x=[], nodes=[], at=[])
		if mode in ('counts', 'approx'):
			a['n'] = int(counts[n])
		elif mode == 'indices':
			a['x'] = [int(b) for b in counts[n]]
		elif mode == 'nodes':
			a['x'] = [int(b) for b in counts[n][0]]
			a['nodes'] = [int(b) for b in counts[n][1]]
			a['at'] = [parse(at(b, c), True)
					for b, c in zip(a['x'], a['nodes'])]
			a['nodes'] = [b * 1000 + c for b, c in zip(a['x'], a['nodes'])]
		res.append(a)
	return res


INDICES = dict(counts=0, indices=1, nodes=2)


def execute(inp):
	from discodop import _fragments, fragments
	logging.disable(logging.CRITICAL)
	op = inp['op']
	if op == 'work':
		return dict(work=[[int(b) for b in a] for a in
				fragments.workload(inp['n'], 1, inp['numproc'])])
	if op == 'cli':
		return cli(inp)
	trees, sents = decbank(inp['bank'])
	disc, mode = inp['disc'], inp['mode']
	if op == 'rec':
		res = fragments.recurringfragments(trees, sents,
				numproc=inp['numproc'], disc=disc, indices=mode == 'indices',
				maxdepth=inp['maxdepth'], maxfrontier=inp['maxfrontier'])
		return dict(res=result(list(res), list(res.values()), mode, disc))
	if op == 'complete':
		from discodop.treetransforms import binarize, handledisc
		trees = [binarize(handledisc(a)) if handled(a) else a for a in trees]
	trees2 = sents2 = None
	if op != 'pair' or inp['two']:
		trees2, sents2 = decbank(inp['bank2'])
	x = _fragments.getctrees(zip(trees, sents),
			None if trees2 is None else zip(trees2, sents2))
	t1, t2, vocab = x['trees1'], x['trees2'], x['vocab']
	if t2 is None:
		t2 = t1
	maxnodes = max(t1.maxnodes, t2.maxnodes)

	def at(n, m):
		return haystack.extract(n, vocab, True, m)

	if op == 'pair':
		frags = _fragments.extractfragments(t1, inp['a1'], min(inp['b1'], t1.len),
				vocab, t2 if inp['two'] else None, inp['a2'],
				min(inp['b2'], t2.len), approx=mode == 'approx', disc=disc,
				twoterms='^(?:%s)$' % '|'.join(inp['tags']) if inp['tags']
				else None, adjacent=inp['adjacent'])
		keys, vals = list(frags), list(frags.values())
		if mode == 'approx':
			return dict(res=result(keys, vals, mode, disc))
		haystack = t1 if inp['where'] == 1 else t2
		counts = _fragments.exactcounts(vals, t1, haystack,
				indices=INDICES[mode], maxnodes=maxnodes)
		return dict(res=result(keys, counts, mode, disc, at))
	haystack = t2
	if op == 'complete':
		keys, bitsets = _fragments.completebitsets(t1, vocab, maxnodes, disc)
		counts = _fragments.exactcounts(bitsets, t1, t2,
				indices=INDICES[mode])
	else:  # slice
		frags = _fragments.extractfragments(t1, 0, 0, vocab, t2,
				approx=False, disc=disc)
		keys = sorted(frags)
		counts = _fragments.exactcountsslice([frags[a] for a in keys], t1, t2,
				indices=INDICES[mode], start=inp['start'], end=inp['stop'],
				maxresults=inp['limit'] or None)
	return dict(res=result(keys, counts, mode, disc, at))


def writebank(fn, bank, fmt):
	from discodop.treebank import writetree
	trees, sents = decbank(bank)
	with open(fn, 'w', encoding='utf8') as out:
		for n, (t, s) in enumerate(zip(trees, sents), 1):
			if fmt == 'bracket':
				line = F.brackstr(dict(t=T.canonical(bank[n - 1]['t']),
						sent=[a if a == 'None' else a.replace('(', '#LRB#'
							).replace(')', '#RRB#')
							for a in bank[n - 1]['sent']])) + '\n'
			else:
				line = writetree(t, s, str(n), fmt)
			out.write(line)


def unalt(s):
	"""Alternative notation back to bracket notation, quotes aside."""
	s = re.sub(r'(?<= )([^ ()"]+)(?=[ )])', r'(\1 )', s)
	return re.sub(r'"([^ ()]+)"', r'\1', s)


def runfrag(inp, argv, names, extra=()):
	from discodop import fragments
	disc = inp['fmt'] != 'bracket'
	out = io.TextIOWrapper(io.BytesIO(), encoding='utf8')
	root = logging.getLogger()
	if inp['batch']:
		os.makedirs('out', exist_ok=True)
	with contextlib.redirect_stdout(out):
		fragments.main(argv + list(extra) + names)
	for a in list(root.handlers):
		root.removeHandler(a)
	if inp['batch']:
		outs = [open('out/%s_%s' % (names[0], a), encoding='utf8').read()
				for a in names[1:]]
	else:
		out.flush()
		outs = [out.buffer.getvalue().decode('utf8')]
	runs = []
	for txt in outs:
		res = []
		for line in txt.splitlines():
			f, _, x = line.partition('\t')
			if '--alt' in extra:
				f = unalt(f)
			a = dict(parse(f, disc), n=-1, d=-1, x=[])
			if inp['mode'] == 'indices':
				a['x'] = [int(b) for b in x.strip('[]').split(', ') if b]
			elif inp['mode'] == 'relfreq':
				a['n'], a['d'] = [int(b) for b in x.split('/')]
			elif inp['mode'] != 'nofreq':
				a['n'] = int(x)
			res.append(a)
		runs.append(res)
	return runs


def cli(inp):
	names = []
	banks = list(inp['banks'])
	if inp['complete']:
		banks[0] = inp['frags']
	for n, a in enumerate(banks):
		names.append('bank%d' % n)
		if inp['complete'] and n == 0:
			with open(names[0], 'w', encoding='utf8') as out:
				f = F.fragstr if inp['fmt'] != 'bracket' else F.brackstr
				for b in a:
					b = dict(b, sent=[c if c == 'None' else c.replace(
							'(', '#LRB#').replace(')', '#RRB#')
							for c in b['sent']])
					out.write(f(b) + '\n')
		else:
			writebank(names[-1], a, inp['fmt'])
	argv = ['--quiet', '--fmt=' + inp['fmt']]
	if inp['batch']:
		argv.append('--batch=out')
	elif inp['numproc'] > 1:
		argv.append('--numproc=%d' % inp['numproc'])
	if inp['mode'] != 'counts':
		argv.append('--' + inp['mode'])
	if inp['cover']:
		argv.append('--cover=%d' % inp['cover'][0] if inp['cover'][1] == MANY
				else '--cover=%d,%d' % tuple(inp['cover']))
	for a in ('adjacent', 'complete'):
		if inp[a]:
			argv.append('--' + a)
	if inp['numtrees']:
		argv.append('--numtrees=%d' % inp['numtrees'])
	runs = [dict(res=a) for a in runfrag(inp, argv, names)]
	for opt, key in (('debin', 'deb'), ('alt', 'alt')):
		if inp[opt]:
			for a, b in zip(runs, runfrag(inp, argv, names, ['--' + opt])):
				a[key] = b
	return dict(runs=runs)


def handled(tree):
	return any(len(a) > 1 and isinstance(a[0], int) for a in tree.subtrees())


def nontrivial(_inp, out):
	return out.get('work') or out.get('res') or any(
			a.get('res') for a in out.get('runs', []))
