// Stand-in for the gheap submodule.
#ifndef VERIF_GHEAP_SHIM
#define VERIF_GHEAP_SHIM
#include <cstddef>
template <std::size_t Fanout = 2, std::size_t PageChunks = 1> class gheap {};
#endif
