// tensor views
#include <kfr/base.hpp>
#include "gsrc.hpp"
#define E extern "C"
typedef i32 T;
template <index_t D> static inline tensor<T, D> mkt(T* data, const u64* sh, const u64* st) { return tensor<T, D>(data, mk<D>(sh), mk<D>(st), memory_finalizer()); }
// axis argument: flags (1 start, 2 stop, 4 step), start, stop, step
static inline tensor_range rng(const i64* a)
{
    tensor_range r;
    if (a[0] & 1) r.start = a[1];
    if (a[0] & 2) r.stop = a[2];
    if (a[0] & 4) r.step = a[3];
    return r;
}
template <index_t D> static inline void desc(u64* o, const T* base, const tensor<T, D>& v)
{
    o[0] = v.data() - base;
    o[1] = v.size();
    o[2] = v.is_contiguous();
    for (index_t k = 0; k < D; k++) { o[3 + k] = v.shape()[k]; o[3 + D + k] = v.strides()[k]; }
}
#define r_(k) rng(a + 4 * k)
#define i_(k) static_cast<index_t>(a[4 * k + 1])
#define SL(D, O, name, ...) E void sl##D##_##name(T* data, const u64* sh, const u64* st, const i64* a, u64* o) { desc<O>(o, data, mkt<D>(data, sh, st)(__VA_ARGS__)); }
SL(1, 1, r, r_(0))
SL(2, 2, rr, r_(0), r_(1)) SL(2, 1, ir, i_(0), r_(1)) SL(2, 1, ri, r_(0), i_(1)) SL(2, 2, r, r_(0)) SL(2, 1, i, i_(0))
SL(3, 3, rrr, r_(0), r_(1), r_(2)) SL(3, 2, irr, i_(0), r_(1), r_(2)) SL(3, 2, rir, r_(0), i_(1), r_(2)) SL(3, 2, rri, r_(0), r_(1), i_(2))
SL(3, 1, iir, i_(0), i_(1), r_(2)) SL(3, 1, iri, i_(0), r_(1), i_(2)) SL(3, 1, rii, r_(0), i_(1), i_(2)) SL(3, 3, r, r_(0)) SL(3, 2, i, i_(0)) SL(3, 3, rr, r_(0), r_(1)) SL(3, 1, ii, i_(0), i_(1)) SL(3, 2, ri, r_(0), i_(1)) SL(3, 2, ir, i_(0), r_(1))
SL(4, 4, rrrr, r_(0), r_(1), r_(2), r_(3)) SL(4, 2, irir, i_(0), r_(1), i_(2), r_(3)) SL(4, 3, rri, r_(0), r_(1), i_(2)) SL(4, 3, i, i_(0))
template <typename F> static inline void itr(F&& f, T* o) { size_t k = 0; f(k, o); }
#define DD(D) \
E T* at_##D(T* data, const u64* sh, const u64* st, const u64* i) { return &mkt<D>(data, sh, st).access(mk<D>(i)); } \
E void box_##D(T* data, const u64* sh, const u64* st, const u64* a, const u64* b, u64* o) { desc<D>(o, data, mkt<D>(data, sh, st)(mk<D>(a), mk<D>(b))); } \
E void tr_##D(T* data, const u64* sh, const u64* st, u64* o) { desc<D>(o, data, mkt<D>(data, sh, st).transpose()); } \
E void get_##D(T* data, const u64* sh, const u64* st, T* o) { tensor<T, D> t = mkt<D>(data, sh, st); for (T x : t) *o++ = x; } \
E void iter_##D(T* data, const u64* sh, const u64* st, T* o, u64* idx) { mkt<D>(data, sh, st).iterate([&](T& x, const shape<D>& i) { *o++ = x; for (index_t k = 0; k < D; k++) *idx++ = i[k]; }); } \
E void expr_##D(T* data, const u64* sh, const u64* st, T* o) { tensor<T, D> t = mkt<D>(data, sh, st); tensor<T, D> r(o, mk<D>(sh), memory_finalizer()); process(r, t); } \
E void fill_##D(T* data, const u64* sh, const u64* st, T v) { mkt<D>(data, sh, st).assign(v); } \
E void assign_##D(T* data, const u64* sh, const u64* st, T* src) { mkt<D>(data, sh, st).assign(tensor<T, D>(src, mk<D>(sh), memory_finalizer())); } \
E void put_##D(T* data, const u64* sh, const u64* st, T* src) { tensor<T, D> t = mkt<D>(data, sh, st); tensor<T, D> s(src, mk<D>(sh), memory_finalizer()); process(t, s); } \
E void inpl_##D(T* data, const u64* sh, const u64* st) { mkt<D>(data, sh, st).unary_inplace([](T x) { return x + 1; }); } \
E void binp_##D(T* data, const u64* sh, const u64* st, T* src) { mkt<D>(data, sh, st).binary_inplace(tensor<T, D>(src, mk<D>(sh), memory_finalizer()), [](T x, T y) { return x - y; }); } \
E T red_##D(T* data, const u64* sh, const u64* st) { return mkt<D>(data, sh, st).reduce([](T x, T acc) { return acc * 3 + x; }, 1); } \
E void mt_##D(T* out, const T* in, const u64* sh) { matrix_transpose(out, in, mk<D>(sh)); } \
E void mtc_##D(complex<f32>* out, const complex<f32>* in, const u64* sh) { matrix_transpose(out, in, mk<D>(sh)); }
DD(1) DD(2) DD(3) DD(4)
E void mtv_2(i64* out, const i64* in, const u64* sh) { matrix_transpose(out, in, mk<2>(sh)); }
E void mtb_2(i8* out, const i8* in, const u64* sh) { matrix_transpose(out, in, mk<2>(sh)); }
#ifdef KVC_NATIVE
#include <stdexcept>
#define NV(D) \
E void copy_##D(T* data, const u64* sh, const u64* st, T* o, u64* d) { tensor<T, D> c = mkt<D>(data, sh, st).copy(); desc<D>(d, c.data(), c); for (T x : c) *o++ = x; } \
E void map_##D(T* data, const u64* sh, const u64* st, T* o) { tensor<T, D> c = mkt<D>(data, sh, st).map([](T x) { return x * 2; }); for (T x : c) *o++ = x; } \
E void bin_##D(T* data, const u64* sh, const u64* st, T* src, T* o) { tensor<T, D> c = mkt<D>(data, sh, st).binary(tensor<T, D>(src, mk<D>(sh), memory_finalizer()), [](T x, T y) { return x - y; }); for (T x : c) *o++ = x; } \
E int flat_##D(T* data, const u64* sh, const u64* st, int may, T* o, u64* d) { try { tensor<T, 1> c = may ? mkt<D>(data, sh, st).flatten_may_copy() : mkt<D>(data, sh, st).flatten(); desc<1>(d, data, c); for (T x : c) *o++ = x; return 1; } catch (const std::exception&) { return 0; } } \
E int resh_##D(T* data, const u64* sh, const u64* st, const u64* ns, int may, T* o, u64* d) { try { tensor<T, 3> c = mkt<D>(data, sh, st).reshape_may_copy(mk<3>(ns), may); desc<3>(d, data, c); for (T x : c) *o++ = x; return 1; } catch (const std::exception&) { return 0; } } \
E int assignbad_##D(T* data, const u64* sh, const u64* st, T* src, const u64* sh2) { try { mkt<D>(data, sh, st).assign(tensor<T, D>(src, mk<D>(sh2), memory_finalizer())); return 1; } catch (const std::exception&) { return 0; } } \
E int eq_##D(T* data, const u64* sh, const u64* st, T* src, const u64* sh2) { tensor<T, D> x = mkt<D>(data, sh, st), y(src, mk<D>(sh2), memory_finalizer()); return x.operator==(y); }
NV(1) NV(2) NV(3) NV(4)
E void nested_2(T* data, const u64* sh, const u64* st, T* o) { tensor<T, 2> t = mkt<2>(data, sh, st); for (auto it = t.nested_begin(); it != t.nested_end(); ++it) { tensor<T, 1> row = *it; for (T x : row) *o++ = x; } }
// storage lifetime: views keep it alive, self-assignment keeps it
E int life(int n)
{
    tensor<T, 1> v;
    {
        tensor<T, 2> t(shape<2>(n, 3), 0);
        for (int i = 0; i < 3 * n; i++) t[i] = i;
        const tensor<T, 2>& u = t;
        t = u;
        tensor<T, 2> w = t;
        t = std::move(const_cast<tensor<T, 2>&>(u));
        v = t(tall(), index_t(1));
        const tensor<T, 2> fresh(shape<2>(n, 3), -1);
        w = fresh;
    }
    tensor<T, 2> reuse(shape<2>(n, 3), -7);
    for (int i = 0; i < n; i++) if (v(i) != 3 * i + 1) return i + 1;
    return 0;
}
#endif
