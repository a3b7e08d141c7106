// entry points over the real small containers
#include <kfr/base.hpp>
#include <kfr/base/small_buffer.hpp>
#include <kfr/base/inline_vector.hpp>
using namespace kfr;
#define E extern "C"
#define SB(T, C) \
    static_assert(sizeof(small_buffer<T, C>) == sizeof(T) * C + 16); \
    E void sb_new_##T##_##C(small_buffer<T, C>* a) { new (a) small_buffer<T, C>(); } \
    E void sb_sized_##T##_##C(small_buffer<T, C>* a, u64 n) { new (a) small_buffer<T, C>(n); } \
    E void sb_resize_##T##_##C(small_buffer<T, C>* a, u64 n) { a->resize(n); } \
    E void sb_push_##T##_##C(small_buffer<T, C>* a, const T* v) { a->push_back(*v); } \
    E void sb_pushown_##T##_##C(small_buffer<T, C>* a, u64 i) { a->push_back((*a)[i]); } \
    E void sb_pop_##T##_##C(small_buffer<T, C>* a) { a->pop_back(); } \
    E void sb_clear_##T##_##C(small_buffer<T, C>* a) { a->clear(); } \
    E void sb_dtor_##T##_##C(small_buffer<T, C>* a) { a->~small_buffer<T, C>(); } \
    E void sb_assign_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { a->assign(*b); } \
    E void sb_copy_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { new (a) small_buffer<T, C>(*b); } \
    E void sb_move_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { new (a) small_buffer<T, C>(std::move(*b)); } \
    E void sb_set_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { *a = *b; } \
    E void sb_mset_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { *a = std::move(*b); } \
    E void sb_swap_##T##_##C(small_buffer<T, C>* a, small_buffer<T, C>* b) { swap(*a, *b); } \
    E u64 sb_query_##T##_##C(small_buffer<T, C>* a, u64 i, T* o) { const auto& c = *a; o[0] = c[i]; o[1] = a->front(); o[2] = a->back(); o[3] = c.front(); o[4] = c.back(); o[5] = c.data()[i]; o[6] = a->begin()[i]; o[7] = c.end()[-1]; return c.size() * 2 + c.empty(); }
#if defined STEPPART || defined KVC_NATIVE
SB(u32, 4) SB(u64, 2)
#endif
#if defined LEAFPART || defined KVC_NATIVE
// inline_vector: contents and size in and out
template <typename V, typename T> static V ld(const T* p, u64 n) { V v; for (auto& x : v.m_values) x = 0; for (u64 i = 0; i < n; ++i) v.m_values[i] = p[i]; v.m_size = n; return v; }
template <typename V, typename T> static void st(const V& v, T* p, u64* n) { for (u64 i = 0; i < v.size(); ++i) p[i] = v[i]; *n = v.size(); }
#define IV(T, N) \
    E void iv_push_##T##_##N(T* p, u64 n, T x, u64* m) { auto v = ld<inline_vector<T, N>>(p, n); v.push_back(x); st(v, p, m); } \
    E void iv_copy_##T##_##N(const T* p, u64 n, T* o, u64* m) { auto v = ld<inline_vector<T, N>>(p, n); auto w(v); inline_vector<T, N> x; x = w; st(x, o, m); auto y(std::move(x)); st(y, o + N, m + 1); inline_vector<T, N> z(v.begin(), v.end()); st(z, o + 2 * N, m + 2); } \
    E void iv_fill_##T##_##N(u64 n, T x, T* o, u64* m) { inline_vector<T, N> v(size_t(n), x); st(v, o, m); inline_vector<T, N> e; m[1] = e.size(); inline_vector<T, N> s(static_cast<size_t>(n)); m[2] = s.size(); } \
    E void iv_list_##T##_##N(const T* p, T* o, u64* m) { inline_vector<T, N> v{ std::initializer_list<T>{ p[0], p[1] } }; st(v, o, m); } \
    E void iv_eq_##T##_##N(const T* p, u64 n, const T* q, u64 m, u64* o) { auto v = ld<inline_vector<T, N>>(p, n); auto w = ld<inline_vector<T, N>>(q, m); o[0] = v == w; o[1] = v != w; } \
    E void iv_query_##T##_##N(const T* p, u64 n, u64 i, T* o, u64* m) { auto v = ld<inline_vector<T, N>>(p, n); const auto& c = v; o[0] = v[i]; o[1] = c[i]; o[2] = v.at(i); o[3] = c.at(i); o[4] = v.front(); o[5] = c.front(); o[6] = v.back(); o[7] = c.back(); o[8] = c.data()[i]; o[9] = c.end()[-1]; o[10] = c.cbegin()[i]; \
        m[0] = v.size(); m[1] = v.empty(); m[2] = c.end() - c.begin(); m[3] = v.cend() - v.cbegin(); m[4] = v.end() - v.begin(); }
IV(i32, 4) IV(u8, 6) IV(f64, 3) IV(u16, 300)
#endif
#ifdef KVC_NATIVE
// a sequence of operations on three small buffers; after each, sizes and elements of all three are written out; returns the number of live allocations
template <typename T, size_t C> static i64 run(const u64* ops, u64 nops, u64* sizes, T* data, u64 cap)
{
    auto& ms = cometa::details::get_memory_statistics(); i64 live0 = i64(ms.allocation_count) - i64(ms.deallocation_count);
    {
        using B = small_buffer<T, C>; B b[3];
        for (u64 i = 0; i < nops; ++i)
        {
            const u64* o = ops + 4 * i; B &x = b[o[1]], &y = b[o[2]]; u64 v = o[3];
            switch (o[0])
            {
            case 0: x.push_back(T(v)); break;
            case 1: x.push_back(x[v]); break;
            case 2: x.pop_back(); break;
            case 3: { u64 n = x.size(); x.resize(v); for (u64 k = n; k < v; ++k) x[k] = T(k); break; }
            case 4: x.clear(); break;
            case 5: x.assign(y); break;
            case 6: x = y; break;
            case 7: x = std::move(y); break;
            case 8: swap(x, y); break;
            case 9: { B c(y); x = c; break; }
            case 10: { B c(std::move(y)); swap(c, x); y = c; break; }
            case 11: { B c(static_cast<size_t>(v)); for (u64 k = 0; k < v; ++k) c[k] = T(k + 7); x = c; break; }
            case 12: std::swap(x, y); break;
            }
            for (int k = 0; k < 3; ++k) { *sizes++ = b[k].size(); if (b[k].size() > cap) return -1; std::copy(b[k].begin(), b[k].end(), data); data += cap; }
        }
    }
    return i64(ms.allocation_count) - i64(ms.deallocation_count) - live0;
}
E i64 run_u32_4(const u64* ops, u64 n, u64* s, u32* d, u64 cap) { return run<u32, 4>(ops, n, s, d, cap); }
E i64 run_f64_16(const u64* ops, u64 n, u64* s, f64* d, u64 cap) { return run<f64, 16>(ops, n, s, d, cap); }
E i64 run_u8_1(const u64* ops, u64 n, u64* s, u8* d, u64 cap) { return run<u8, 1>(ops, n, s, d, cap); }
#endif
