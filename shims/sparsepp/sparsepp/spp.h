// Stand-in for the sparsepp submodule (absent in this sandbox).
// Same observable map/set semantics, built on the standard library.
#ifndef VERIF_SPP_SHIM
#define VERIF_SPP_SHIM
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <string>
#include <cstring>
#include <cstdint>
namespace spp {
template <class T> inline void hash_combine(std::size_t &seed, T const &v) {
	seed ^= std::hash<T>()(v) + 0x9e3779b97f4a7c15ULL + (seed << 6) + (seed >> 2);
}
template <class K> struct spp_hash { size_t operator()(const K &k) const { return std::hash<K>()(k); } };
template <class K, class V, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_map : public std::unordered_map<K, V, H, E> {
	typedef std::unordered_map<K, V, H, E> base;
public:
	sparse_hash_map() : base() {}
	sparse_hash_map(uint64_t n) : base(n) {}
	void resize(uint64_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
template <class K, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_set : public std::unordered_set<K, H, E> {
	typedef std::unordered_set<K, H, E> base;
public:
	sparse_hash_set() : base() {}
	sparse_hash_set(uint64_t n) : base(n) {}
	void resize(uint64_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
}
#endif
