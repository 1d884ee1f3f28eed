#ifndef VERIF_BTREE_SET_SHIM
#define VERIF_BTREE_SET_SHIM
#include <set>
namespace btree { template <class K> class btree_set : public std::set<K> {}; }
#endif
