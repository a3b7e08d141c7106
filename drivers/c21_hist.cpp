// entry points over the real histogram
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
static_assert(sizeof(histogram_data<0>) == 32);
// a histogram with any counts: below, bins, above; total
template <size_t B> struct hist
{
    histogram_data<B> d;
    static constexpr size_t at = sizeof(univector<u32, B + 2>);
    static_assert(sizeof(histogram_data<B>) >= at + 8);
    hist(const u32* c, const u64* t) : d(B) { memcpy((void*)&d, c, 4 * (B + 2)); memcpy((char*)&d + at, t, 8); }
    void get(u32* c, u64* t) const { memcpy(c, (const void*)&d, 4 * (B + 2)); memcpy(t, (const char*)&d + at, 8); }
};
#define HP(T, B, N) E void hp_##T##_##B##_##N(u32* h, u64* t, const T* v) { hist<B> x(h, t); x.d.put(read<N>(v)); x.get(h, t); }
#define HQ(T, N) E void hq_##T##_##N(histogram_data<0>* h, const T* v) { h->put(read<N>(v)); }
#define HPS(T) HP(T, 1, 1) HP(T, 1, 2) HP(T, 2, 1) HP(T, 2, 4) HP(T, 6, 1) HP(T, 6, 2) HP(T, 6, 3) HP(T, 10, 1) HP(T, 10, 4) HP(T, 20, 1) HP(T, 20, 8) HQ(T, 1) HQ(T, 2) HQ(T, 4) HQ(T, 8)
HPS(i8) HPS(u8) HPS(i16) HPS(u16) HPS(i32) HPS(u32) HPS(i64) HPS(u64) HPS(f32) HPS(f64)
#define HS(T) E void hs_##T(u32* h, u64* t, const T* v) { hist<6> x(h, t); x.d.put(*v); x.get(h, t); }
HS(i32) HS(u8) HS(f32)
// queries
E void hv_6(const u32* h, const u64* t, u32* o, u64* o2) { hist<6> x(h, t); auto& d = x.d; o[0] = d.below(); for (u64 i = 0; i < 6; ++i) o[1 + i] = d[i]; o[7] = d.above(); auto v = d.values(); for (u64 i = 0; i < 6; ++i) o[8 + i] = v[i]; o2[0] = d.size(); o2[1] = v.size(); o2[2] = d.total(); }
E void hn_6(u32* h, u64* t) { histogram_data<6> d(6); memcpy(h, (const void*)&d, 32); *t = d.total(); }
#ifdef KVC_NATIVE
template <typename H> static void dump(const H& h, u64* o, u64 bins) { o[0] = h.below(); for (u64 i = 0; i < bins; ++i) o[1 + i] = h[i]; o[bins + 1] = h.above(); o[bins + 2] = h.total(); o[bins + 3] = h.size(); auto v = h.values(); for (u64 i = 0; i < bins; ++i) if (v[i] != h[i]) o[bins + 3] = ~0ull; }
#define ND(T) E void nd_##T(const T* x, u64 n, u64 bins, u64* o) { dump(histogram(make_univector(x, n), bins), o, bins); } \
    E void ns10_##T(const T* x, u64 n, u64* o) { dump(histogram<10>(make_univector(x, n)), o, 10); } E void ns1_##T(const T* x, u64 n, u64* o) { dump(histogram<1>(make_univector(x, n)), o, 1); } E void ns300_##T(const T* x, u64 n, u64* o) { dump(histogram<300>(make_univector(x, n)), o, 300); } \
    E void ne_##T(const T* x, u64 n, u64 bins, T* y, u64* o) { auto e = histogram_expression(make_univector(x, n), bins); make_univector(y, n) = e; } \
    E void np_##T(const T* x, u64 n, u64 bins, u64* o) { histogram_data<0> h(bins); for (u64 i = 0; i < n; ++i) h.put(x[i]); dump(h, o, bins); }
ND(i8) ND(u8) ND(i16) ND(u16) ND(i32) ND(u32) ND(i64) ND(u64) ND(f32) ND(f64)
#endif
