// entry points over the real sample conversion and channel interleaving functions
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
#define CS(A, B) \
    E void cs_##A##_##B(B* o, const A* x) { *o = convert_sample<B>(*x); }
#define CSX(A) CS(A, i8) CS(A, i16) CS(A, i32) CS(A, i64) CS(A, f32) CS(A, f64) \
    E void cs_##A##_i24(i32* o, const A* x) { *o = (int)convert_sample<i24>(*x); } \
    E void cs_i24_##A(A* o, const i32* x) { *o = convert_sample<A>(i24(*x)); }
CSX(i8) CSX(i16) CSX(i32) CSX(i64) CSX(f32) CSX(f64)
E void cs_i24_i24(i32* o, const i32* x) { *o = (int)convert_sample<i24>(i24(*x)); }
// whole buffers
#define CV(A, B) \
    E void cv_##A##_##B(B* o, const A* x, size_t n) { convert(o, x, n); } \
    E void cvi_##A##_##B(B* o, const A* x, size_t n) { convert(o, (const void*)x, audio_sample_traits<A>::type, n); } \
    E void cvo_##A##_##B(B* o, const A* x, size_t n) { convert((void*)o, audio_sample_traits<B>::type, x, n); } \
    E void il_##A##_##B(B* o, const A** x, size_t ch, size_t n) { interleave(o, x, ch, n); } \
    E void dl_##A##_##B(B** o, const A* x, size_t ch, size_t n) { deinterleave(o, x, ch, n); }
#define CVX(A) CV(A, i8) CV(A, i16) CV(A, i32) CV(A, i64) CV(A, f32) CV(A, f64)
CVX(i8) CVX(i16) CVX(i32) CVX(i64) CVX(f32) CVX(f64)
E size_t ss(int t) { return audio_sample_sizeof((audio_sample_type)t); }
E size_t sb(int t) { return audio_sample_bit_depth((audio_sample_type)t); }
#ifdef KVC_NATIVE
// first sample value (below the most negative code) that a round trip does not restore; full scale + 1 if none
#define RT(A, B) E long long rt_##A##_##B() { const long long m = (long long)audio_sample_traits<A>::scale; for (long long v = -m; v <= m; v++) { A x((int)v); if ((long long)convert_sample<A>(convert_sample<B>(x)) != v) return v; } return m + 1; }
RT(i8, i16) RT(i8, i24) RT(i8, i32) RT(i8, i64) RT(i8, f32) RT(i8, f64) RT(i16, i24) RT(i16, i32) RT(i16, i64) RT(i16, f32) RT(i16, f64) RT(i24, i32) RT(i24, i64) RT(i24, f32) RT(i24, f64)
// containers
#define UV(A, B) \
    E void uil_##A##_##B(B* o, const A* x, size_t ch, size_t n) { univector2d<A> in; for (size_t c = 0; c < ch; c++) in.push_back(univector<A>(x + c * n, x + c * n + n)); univector<B> out(ch * n); interleave(out, in); std::copy(out.begin(), out.end(), o); } \
    E void udl_##A##_##B(B* o, const A* x, size_t ch, size_t n) { univector<A> in(x, x + ch * n); univector2d<B> out(ch, univector<B>(n)); deinterleave(out, in); for (size_t c = 0; c < ch; c++) std::copy(out[c].begin(), out[c].end(), o + c * n); }
#define UVX(A) UV(A, i8) UV(A, i16) UV(A, i32) UV(A, i64) UV(A, f32) UV(A, f64)
UVX(i8) UVX(i16) UVX(i32) UVX(i64) UVX(f32) UVX(f64)
E void uir_f32(f32* o, const f32* x, size_t ch, size_t n) { univector2d<f32> in; for (size_t c = 0; c < ch; c++) in.push_back(univector<f32>(x + c * n, x + c * n + n)); univector<f32> r = interleave(in); if (r.size() == ch * n) std::copy(r.begin(), r.end(), o); }
#endif
