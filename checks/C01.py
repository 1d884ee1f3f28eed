"""Agenda: every history of operations."""
MODULES = ['bit']
SPEC = 'AgendaTrace'
TRACECFG = 'AgendaTrace.cfg'
MODELS = [('Agenda', 'Agenda.cfg'), ('AgendaHeap', 'AgendaHeap.cfg')]
GEN = [('GenAgenda', 'GenAgenda.cfg', 'hist')]
ASSUMPTIONS = ['keys and priorities are small integers; the code only '
		'compares priorities with < and == and hashes keys']


def inputs(ctx):
	full = ctx.mine(ctx.gen('hist'))
	for a in full:
		yield dict(op='history', ops=a['ops'])
	rng = ctx.rng
	for _ in range(ctx.n(1200, 20000)):
		nk, np = rng.randint(1, 7), rng.randint(1, 5)
		kinds = rng.choice([
				['set', 'set', 'set', 'popitem', 'peekitem', 'del', 'pop', 'get',
				'in', 'update'],
				['set', 'set', 'popitem', 'peekitem'],
				['set', 'del', 'peekitem', 'popitem', 'clear', 'update', 'new']])
		ops = []
		if rng.random() < 0.4:
			ops.append(dict(o='new', ps=[dict(k=rng.randint(1, nk),
					v=rng.randint(1, np)) for _ in range(rng.randint(0, 12))]))
		for _ in range(rng.randint(3, 40)):
			o = rng.choice(kinds)
			if o in ('popitem', 'peekitem', 'clear'):
				ops.append(dict(o=o))
			elif o in ('update', 'new'):
				ops.append(dict(o=o, ps=[dict(k=rng.randint(1, nk),
						v=rng.randint(1, np)) for _ in range(rng.randint(0, 4))]))
			else:
				a = dict(o=o, k=rng.randint(1, nk))
				if o == 'set':
					a['v'] = rng.randint(1, np)
				ops.append(a)
		yield dict(op='history', ops=ops)


def execute(inp):
	from discodop.util import PyAgenda
	ag = PyAgenda()
	steps = []
	for a in inp['ops']:
		o, k, v = a['o'], a.get('k'), a.get('v')
		r = dict(s='ok')
		try:
			if o == 'new':
				ag = PyAgenda([(b['k'], b['v']) for b in a['ps']])
			elif o == 'set':
				ag[k] = v
			elif o == 'update':
				ag.update([(b['k'], b['v']) for b in a['ps']])
			elif o == 'del':
				del ag[k]
			elif o == 'pop':
				r = dict(s='val', v=ag.pop(k))
			elif o == 'get':
				r = dict(s='val', v=ag[k])
			elif o == 'in':
				r = dict(s='bool', b=k in ag)
			elif o == 'clear':
				ag.clear()
			else:
				x, y = ag.peekitem() if o == 'peekitem' else ag.popitem()
				r = dict(s='item', k=x, v=y)
		except (KeyError, IndexError) as err:
			r = dict(s=err.__class__.__name__)
		assert sorted(ag) == sorted(ag.keys()) and len(
				list(ag.values())) == len(list(ag.keys()))
		steps.append(dict(r=r, items=[dict(k=x, v=y) for x, y in ag.items()],
				len=len(ag), true=bool(ag)))
	return dict(steps=steps)
