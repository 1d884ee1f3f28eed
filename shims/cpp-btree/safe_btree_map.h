// Stand-in for the cpp-btree submodule: an ordered map that tolerates
// insertion while iterating (std::map iterators are stable).
#ifndef VERIF_BTREE_MAP_SHIM
#define VERIF_BTREE_MAP_SHIM
#include <map>
namespace btree {
template <class K, class V> class safe_btree_map : public std::map<K, V> {};
template <class K, class V> class btree_map : public std::map<K, V> {};
}
#endif
