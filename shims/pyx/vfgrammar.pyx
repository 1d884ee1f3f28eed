# cython: language_level=3
"""Lists the contents of a compiled grammar."""
from libc.math cimport exp
from libc.stdint cimport uint64_t
from fractions import Fraction
from discodop.containers cimport Grammar, ProbRule


def frac(prob, logprob):
	if logprob:
		prob = exp(-prob)
	result = Fraction(prob).limit_denominator(8192)
	if abs(float(result) - prob) > 1e-9 * prob:
		return [-1, 1]
	return [result.numerator, result.denominator]


def dump(Grammar g):
	cdef ProbRule rule
	cdef ProbRule *ptr
	names = [g.tolabel[n] for n in range(g.nonterminals)]
	toid = sorted((g.toid[a], a) for a in g.toid)
	rules = []
	for n in range(g.numrules):
		rule = g._bylhs[g.revrulemap[n]]
		rules.append(dict(no=rule.no, l=names[rule.lhs],
				r=[names[rule.rhs1]] + ([names[rule.rhs2]] if rule.rhs2 else []),
				yf=yf(rule.args, rule.lengths, g.fanout[rule.lhs]),
				c=g.rulecounts[n], p=frac(rule.prob, g.logprob)))
	index = dict(lhs=[], un=[], left=[], right=[])
	for n in range(1, g.nonterminals):
		m = 0
		while g.bylhs[n][m].lhs == n:
			rule = g.bylhs[n][m]
			index['lhs'].append([names[n], rule.no, frac(rule.prob, g.logprob)])
			m += 1
		m = 0
		while g.unary[n][m].rhs1 == n:
			rule = g.unary[n][m]
			index['un'].append([names[n], rule.no, frac(rule.prob, g.logprob)])
			m += 1
		m = 0
		while g.lbinary[n][m].rhs1 == n:
			rule = g.lbinary[n][m]
			index['left'].append([names[n], rule.no, frac(rule.prob, g.logprob)])
			m += 1
		m = 0
		while g.rbinary[n][m].rhs2 == n:
			rule = g.rbinary[n][m]
			index['right'].append([names[n], rule.no, frac(rule.prob, g.logprob)])
			m += 1
	lex = []
	for it in g.lexicalbyword:
		for n in it.second:
			lex.append(dict(w=it.first.decode('utf8'), l=names[g.lexical[n].lhs],
				c=g.lexcounts[n], p=frac(g.lexical[n].prob, g.logprob)))
	return dict(labels=names[1:], toid=[a for _n, a in toid][1:],
			toidnos=[n for n, _a in toid],
			fan=[g.fanout[n] for n in range(1, g.nonterminals)],
			mass=[g.freqmass[n] for n in range(1, g.nonterminals)],
			rules=rules, index=index, lex=lex,
			pos=[names[n] for n in g.lexicallhs],
			masked=[n for n in range(g.numrules) if g.mask.size()
				and n // 64 < g.mask.size() and g.mask[n // 64] >> (n % 64) & 1])


def yf(args, lengths, fanout):
	result, part = [], []
	for n in range(32):
		part.append(args >> n & 1)
		if lengths >> n & 1:
			result.append(part)
			part = []
			if len(result) == fanout:
				break
	return result


def selfmap(Grammar g):
	return [g.tolabel[n] if n else '' for n in g.selfmapping]


def map(Grammar g, Grammar coarse):
	return [coarse.tolabel[n] if n else '' for n in g.mapping]
