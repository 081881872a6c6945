// Algorithms whose library implementation does not unroll to constant size:
// same results, simpler code. Included before anything else.
#ifndef OMV_ALGO_HPP
#define OMV_ALGO_HPP
#define sort omv_library_sort
#define stable_sort omv_library_stable_sort
#include <algorithm>
#include <functional>
#undef sort
#undef stable_sort
namespace std {
template<class I, class C> void stable_sort(I f, I l, C less) {
    for (I i = f; i != l; ++i) {
        for (I j = i; j != f && less(*j, *(j - 1)); --j) {
            auto t = std::move(*j); *j = std::move(*(j - 1)); *(j - 1) = std::move(t);
        }
    }
}
template<class I> void stable_sort(I f, I l) { std::stable_sort(f, l, std::less<>()); }
template<class I, class C> void sort(I f, I l, C less) { std::stable_sort(f, l, less); }
template<class I> void sort(I f, I l) { std::stable_sort(f, l, std::less<>()); }
}
#endif
