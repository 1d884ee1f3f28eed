# cython: language_level=3
"""Lists the contents of a chart: items, their probabilities and edges."""
from libc.stdint cimport uint64_t
from discodop.containers cimport (Chart, Grammar, Edge, ItemNo, Prob, cellidx,
		SmallChartItem, FatChartItem,
		Whitelist, Label)


def dump(Chart chart):
	"""List of (label, indices, prob, edges); edges are tuples
	(rule number, left label, left indices, right label, right indices)."""
	cdef Edge edge
	cdef ItemNo item, left, right
	result = []
	for n in range(1, chart.numitems() + 1):
		item = chart.getitemidx(n)
		edges = []
		for edge in chart.parseforest[item]:
			if edge.rule is NULL:
				edges.append((-1, chart.lexidx(edge)))
			else:
				left = chart._left(item, edge)
				ll = name(chart, left)
				if edge.rule.rhs2:
					right = chart._right(item, edge)
					rr = name(chart, right)
				else:
					rr = ('', [])
				edges.append((edge.rule.no, ) + ll + rr)
		result.append(name(chart, item)
				+ (chart.subtreeprob(item), edges))
	return result


cpdef name(Chart chart, ItemNo item):
	return chart.grammar.tolabel[chart.label(item)], list(chart.indices(item))


def sums(Chart chart):
	"""List of (label, indices, inside, outside)."""
	cdef ItemNo item
	result = []
	for n in range(1, chart.numitems() + 1):
		item = chart.getitemidx(n)
		result.append(name(chart, item) + (
				chart.inside[item] if chart.inside.size() > item else None,
				chart.outside[item] if chart.outside.size() > item else None))
	return result


def whitelisted(Whitelist w, Chart chart, bint cfg):
	"""List of (label, indices) of items in a whitelist made from chart."""
	cdef Label label
	cdef uint64_t bits
	cdef size_t n, m
	cdef short start, end
	cdef SmallChartItem sitem
	cdef FatChartItem fitem
	names = chart.grammar.tolabel
	result = []
	if cfg:
		for start in range(chart.lensent):
			for end in range(start + 1, chart.lensent + 1):
				for label in w.cfg[cellidx(start, end, chart.lensent, 1)]:
					result.append((names[label], list(range(start, end))))
	elif w.small.size():
		for n in range(w.small.size()):
			for sitem in w.small[n]:
				if sitem.label != n:
					raise ValueError('label %d in cell %d' % (sitem.label, n))
				bits = sitem.vec
				result.append((names[n],
						[m for m in range(64) if bits >> m & 1]))
	else:
		for n in range(w.fat.size()):
			for fitem in w.fat[n]:
				if fitem.label != n:
					raise ValueError('label %d in cell %d' % (fitem.label, n))
				result.append((names[n], [m for m in range(128)
						if fitem.vec[m // 64] >> (m % 64) & 1]))
	return result


def labelid(Grammar grammar, str label):
	return grammar.toid[label]
