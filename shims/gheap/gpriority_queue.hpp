#ifndef VERIF_GPQ_SHIM
#define VERIF_GPQ_SHIM
#include <queue>
#include <vector>
template <class Heap, class T, class Container = std::vector<T>, class Cmp = std::less<T> >
class gpriority_queue : public std::priority_queue<T, Container, Cmp> {
	typedef std::priority_queue<T, Container, Cmp> base;
public:
	gpriority_queue() : base() {}
	template <class It> gpriority_queue(It a, It b) : base(a, b) {}
};
#endif
