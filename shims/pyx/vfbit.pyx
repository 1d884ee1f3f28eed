# cython: language_level=3
"""Exposes the inline functions of bit.pxd on sets of positions."""
from libc.stdint cimport uint64_t, uint32_t, uint8_t, uint16_t
from discodop.bit cimport *

DEF MAXSLOTS = 8


cdef void fill(uint64_t *vec, s):
	cdef int n
	for n in range(MAXSLOTS):
		vec[n] = 0
	for n in s:
		SETBIT(vec, n)


cdef list members(uint64_t *vec):
	return [n for n in range(MAXSLOTS * 64) if TESTBIT(vec, n)]


def one(a, uint32_t pos):
	"""Single-word functions; a is a set of positions below 64."""
	cdef uint64_t vec = 0
	cdef uint32_t v32 = 0
	cdef uint16_t v16 = 0
	cdef uint8_t v8 = 0
	for n in a:
		vec |= 1UL << n
		if n < 32:
			v32 |= 1U << n
		if n < 16:
			v16 |= 1U << n
		if n < 8:
			v8 |= 1U << n
	return dict(nextset=nextset(vec, pos), nextunset=nextunset(vec, pos),
			bitlength=bitlength(vec), bitcount=bitcount(vec),
			testbit=bool(testbit(vec, pos)),
			test32=bool(testbit(v32, pos)) if pos < 32 else pos in a,
			test16=bool(testbit(v16, pos)) if pos < 16 else pos in a,
			test8=bool(testbit(v8, pos)) if pos < 8 else pos in a)


def many(a, b, uint32_t pos, int slots):
	"""Functions on arrays of words."""
	cdef uint64_t x[MAXSLOTS]
	cdef uint64_t y[MAXSLOTS]
	cdef uint64_t z[MAXSLOTS]
	cdef uint64_t cur
	cdef int idx, n
	fill(x, a)
	fill(y, b)
	fill(z, [])
	res = dict(count=abitcount(x, slots), length=abitlength(x, slots),
			nextset=anextset(x, pos, slots),
			nextunset=anextunset(x, pos, slots),
			subset=bool(subset(x, y, slots)))
	setunion(z, x, y, slots)
	res['union'] = members(z)
	fill(z, [])
	setintersect(z, x, y, slots)
	res['intersect'] = members(z)
	fill(z, a)
	setunioninplace(z, y, slots)
	res['unionin'] = members(z)
	fill(z, a)
	setintersectinplace(z, y, slots)
	res['intersectin'] = members(z)
	idx = 0
	cur = x[0]
	it = []
	n = iteratesetbits(x, slots, &cur, &idx)
	while n != -1 and len(it) <= MAXSLOTS * 64:
		it.append(n)
		n = iteratesetbits(x, slots, &cur, &idx)
	res['iter'] = it
	idx = 0
	cur = ~x[0]
	it = []
	n = iterateunsetbits(x, slots, &cur, &idx)
	while n != -1 and len(it) <= MAXSLOTS * 64:
		it.append(n)
		n = iterateunsetbits(x, slots, &cur, &idx)
	res['uniter'] = it
	fill(z, a)
	SETBIT(z, pos)
	res['setbit'] = members(z)
	CLEARBIT(z, pos)
	res['clearbit'] = members(z)
	return res
