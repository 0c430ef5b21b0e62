// Shared by every harness: public API only, so a change of private layout or helpers is followed.
#include <cstdint>
#include <cstddef>
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
typedef unsigned int u32; typedef unsigned long u64; typedef unsigned long long ull;
template <std::size_t N> static inline void ld(Aeu<N>& x, const u32* p) { for (std::size_t i = 0; i < N / 32; ++i) x.setBlock(i, p[i]); }
template <std::size_t N> static inline void st(u32* p, const Aeu<N>& x) { for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i); }
template <std::size_t N> static inline Aesi<N> mks(const u32* p, int sg) {
    if (sg == 0) return Aesi<N>(0);
    Aeu<N> b; ld(b, p); Aesi<N> x(b); if (sg < 0) x.inverse(); return x;
}
template <std::size_t N> static inline void sts(u32* p, int* sg, const Aesi<N>& x) {
    for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i);
    *sg = x.isZero() ? (x.isPositive() || x.isNegative() ? 7 : 0) : x.isPositive() ? (x.isNegative() ? 8 : 1) : x.isNegative() ? -1 : 9;
}
