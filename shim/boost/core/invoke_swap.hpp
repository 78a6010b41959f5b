// Boost 1.83 (installed here) predates this header; same meaning as in later releases.
#ifndef VERIF_SHIM_INVOKE_SWAP
#define VERIF_SHIM_INVOKE_SWAP
#include <utility>
namespace boost { namespace core {
template <class T> inline void invoke_swap(T& a, T& b) { using std::swap; swap(a, b); }
}}
#endif
