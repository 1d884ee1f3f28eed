"""Random fragments of trees, shared by checks."""
import trees as T


def cut(rng, t, p):
	"""Fragment of t: open nodes dominate all their positions directly."""
	if T.ispre(t):
		return t
	return T.node(t['l'], [
			T.node('open ' + c['l'], [T.term(n) for n in sorted(T.leaves(c))])
			if rng.random() < p else cut(rng, c, p) for c in t['k']])


def renumber(t, sent):
	"""Components of open nodes become one position; gaps are kept."""
	units = []

	def walk(a):
		if a['k'][0]['i'] >= 0:
			units.append(a)
		else:
			for c in a['k']:
				walk(c)
	walk(t)
	owner = {}
	for u, a in enumerate(units):
		for n in T.leaves(a):
			owner[n] = u
	words, pos, prev = [], {}, None
	for n in sorted(owner):
		opn = units[owner[n]]['l'].startswith('open ')
		if prev is not None and n == prev + 1 and opn and (
				owner[n] == owner[prev]):
			pass
		else:
			if prev is not None and n > prev + 1:
				words.append('None')
			pos.setdefault(owner[n], []).append(len(words))
			words.append('None' if opn else sent[n])
		prev = n
	cnt = [0]

	def rebuild(a):
		if a['k'][0]['i'] >= 0:
			u = cnt[0]
			cnt[0] += 1
			return T.node(a['l'][5:] if a['l'].startswith('open ') else a['l'],
					[T.term(n) for n in pos[u]])
		return T.node(a['l'], [rebuild(c) for c in a['k']])
	return dict(t=rebuild(t), sent=words)


def fragstr(f):
	def walk(a):
		if a['i'] >= 0:
			w = f['sent'][a['i']]
			return '%d=%s' % (a['i'], '' if w == 'None' else w)
		return '(%s %s)' % (a['l'], ' '.join(walk(c) for c in a['k']))
	return walk(f['t'])


def brackstr(f):
	def walk(a):
		if a['i'] >= 0:
			w = f['sent'][a['i']]
			return '' if w == 'None' else w
		return '(%s %s)' % (a['l'], ' '.join(walk(c) for c in a['k']))
	return walk(f['t'])


def frags(rng, bank, n):
	res = []
	for _ in range(n):
		a = rng.choice(bank)
		b = rng.choice(list(T.nodes(a['t'])))
		f = renumber(cut(rng, b, rng.choice([0.1, 0.5, 0.9])), a['sent'])
		if f not in res:
			res.append(f)
	return res
