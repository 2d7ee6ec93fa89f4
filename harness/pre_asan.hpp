// Included first in the asan build.  With AddressSanitizer, Abseil's headers add fields to the containers that S2 shares
// with this code, which the installed libs2 does not have.
#pragma once
#include <absl/base/config.h>
#undef ABSL_HAVE_ADDRESS_SANITIZER

// Sorting a vector checks that the comparison is a strict weak order on its elements (a breach is undefined behaviour).
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <vector>
namespace verif {
extern long sorts_checked;
[[noreturn]] inline void sort_breach(const char *what) {
    std::fprintf(stderr, "Assertion 'sort comparison is %s' failed.\n", what);
    std::abort();
}
template <class It, class C> void check_order(It f, It l, C &c) {
    const long n = l - f;
    auto triple = [&](long i, long j, long k) {
        auto &x = *(f + i), &y = *(f + j), &z = *(f + k);
        if (c(x, x)) sort_breach("irreflexive");
        const bool xy = c(x, y), yx = c(y, x), yz = c(y, z), zy = c(z, y), xz = c(x, z), zx = c(z, x);
        if ((xy && yx) || (yz && zy) || (xz && zx)) sort_breach("asymmetric");
        if (xy && yz && !xz) sort_breach("transitive");
        if (!xy && !yx && !yz && !zy && (xz || zx)) sort_breach("transitive in its equivalence");
    };
    __atomic_add_fetch(&sorts_checked, 1, __ATOMIC_RELAXED);
    if (n <= 12) {
        for (long i = 0; i < n; ++i)
            for (long j = 0; j < n; ++j)
                for (long k = 0; k < n; ++k) triple(i, j, k);
    } else {
        unsigned long x = 88172645463325252ul + n;
        for (int t = 0; t < 1500; ++t) {
            long p[3];
            for (auto &q : p) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; q = (long)(x % n); }
            triple(p[0], p[1], p[2]);
        }
    }
}
} // namespace verif
namespace std {
template <class T, class A, class C>
void sort(__gnu_cxx::__normal_iterator<T *, vector<T, A>> f, __gnu_cxx::__normal_iterator<T *, vector<T, A>> l, C c) {
    verif::check_order(f, l, c);
    std::__sort(f, l, __gnu_cxx::__ops::__iter_comp_iter(c));
}
template <class T, class A, class C>
void stable_sort(__gnu_cxx::__normal_iterator<T *, vector<T, A>> f, __gnu_cxx::__normal_iterator<T *, vector<T, A>> l, C c) {
    verif::check_order(f, l, c);
    std::__stable_sort(f, l, __gnu_cxx::__ops::__iter_comp_iter(c));
}
} // namespace std
