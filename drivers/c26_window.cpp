// window functions
#include <kfr/base.hpp>
#include <cmath>
#ifndef KVC_NATIVE
// transcendental functions by contract: the library's own approximations are renamed away, the callers see a function specified as the mathematical one
#define sin kvc_own_sin
#define cos kvc_own_cos
#define exp kvc_own_exp
#define modzerobessel kvc_own_modzerobessel
#include <kfr/math/log_exp.hpp>
#include <kfr/math/sin_cos.hpp>
#include <kfr/math/modzerobessel.hpp>
#undef sin
#undef cos
#undef exp
#undef modzerobessel
#define CON(F) extern "C" kfr::f32 kc_##F##_f32(kfr::f32); extern "C" kfr::f64 kc_##F##_f64(kfr::f64); \
namespace kfr { inline namespace CMT_ARCH_NAME { \
template <size_t N> KFR_INTRINSIC vec<f32, N> F(const vec<f32, N>& x) { vec<f32, N> r; for (size_t i = 0; i < N; i++) r[i] = kc_##F##_f32(x[i]); return r; } \
template <size_t N> KFR_INTRINSIC vec<f64, N> F(const vec<f64, N>& x) { vec<f64, N> r; for (size_t i = 0; i < N; i++) r[i] = kc_##F##_f64(x[i]); return r; } } }
CON(sin) CON(cos) CON(exp) CON(modzerobessel)
#endif
#include <kfr/dsp/window.hpp>
using namespace kfr;
#define E extern "C"
template <typename T, window_type t> using win_t = typename window_by_type<t>::template type<T>;

// ramp behind every window: element at symbolic index, one by one and in vectors
#define LIN(T, M, N) E void lin_##M##_##T##_##N(u64 size, int sym, u64 i, T* out) { \
    window_linspace<T> l(cval<window_metrics, window_metrics::metrics_##M>, size, sym ? window_symmetry::symmetric : window_symmetry::periodic); \
    write(out, get_elements(l, shape<1>(i), axis_params<0, N>())); }
#define LINT(T, M) LIN(T, M, 1) LIN(T, M, 4)
#define LINM(M) LINT(f32, M) LINT(f64, M)
LINM(0_1) LINM(m1_1) LINM(mpi_pi) LINM(m1_1_trunc) LINM(m1_1_trunc2)

#define WINS(X) X(rectangular) X(triangular) X(bartlett) X(cosine) X(hann) X(bartlett_hann) X(hamming) X(bohman) X(blackman) X(blackman_harris) X(kaiser) X(flattop) X(gaussian) X(lanczos) X(cosine_np) X(planck_taper) X(tukey)

// window elements as functions of the ramp: the ramp degenerated to the constant x
template <typename T, window_type t> struct at_t : win_t<T, t>
{
    at_t(T x, T arg) : win_t<T, t>(2, arg, window_symmetry::symmetric) { this->linspace.start = x; this->linspace.stop = x; this->linspace.invsize = 1; }
};
#define AT(W) E f32 at_##W##_f32(f32 x, f32 arg) { at_t<f32, window_type::W> w(x, arg); return get_elements(static_cast<win_t<f32, window_type::W>&>(w), shape<1>(0), axis_params<0, 1>())[0]; } \
    E f64 at_##W##_f64(f64 x, f64 arg) { at_t<f64, window_type::W> w(x, arg); return get_elements(static_cast<win_t<f64, window_type::W>&>(w), shape<1>(0), axis_params<0, 1>())[0]; }
AT(triangular) AT(bartlett) AT(cosine) AT(hann) AT(bartlett_hann) AT(hamming) AT(bohman) AT(blackman) AT(blackman_harris) AT(flattop) AT(gaussian) AT(lanczos) AT(cosine_np) AT(planck_taper) AT(tukey)
#define RECT(T, N) E void rect_##T##_##N(u64 size, u64 i, T* out) { expression_rectangular<T> w(size); write(out, get_elements(w, shape<1>(i), axis_params<0, N>())); }
RECT(f32, 1) RECT(f64, 1) RECT(f32, 4) RECT(f64, 4)

#ifdef KVC_NATIVE
#define VIA(T) \
E u64 win_handle_##T(int type, u64 n, T p, int sym, T* out) \
{ \
    univector<T> r = truncate(window<T>(n, static_cast<window_type>(type), p, sym ? window_symmetry::symmetric : window_symmetry::periodic), n); \
    for (size_t i = 0; i < r.size(); i++) out[i] = r[i]; \
    return r.size(); \
} \
E u64 win_typed_##T(int type, u64 n, T p, int sym, T* out) \
{ \
    const window_symmetry s = sym ? window_symmetry::symmetric : window_symmetry::periodic; \
    univector<T> r; \
    switch (static_cast<window_type>(type)) { WINS(CASE_##T) } \
    for (size_t i = 0; i < r.size(); i++) out[i] = r[i]; \
    return r.size(); \
} \
E u64 win_named_##T(int type, u64 n, T p, T* out) \
{ \
    univector<T> r; \
    switch (type) { \
    case 1: r = window_rectangular<T>(n); break; \
    case 2: r = window_triangular<T>(n); break; \
    case 3: r = window_bartlett<T>(n); break; \
    case 4: r = window_cosine<T>(n); break; \
    case 5: r = window_hann<T>(n); break; \
    case 6: r = window_bartlett_hann<T>(n); break; \
    case 7: r = window_hamming<T>(n, p); break; \
    case 8: r = window_bohman<T>(n); break; \
    case 9: r = window_blackman<T>(n, p); break; \
    case 10: r = window_blackman_harris<T>(n); break; \
    case 11: r = window_kaiser<T>(n, p); break; \
    case 12: r = window_flattop<T>(n); break; \
    case 13: r = window_gaussian<T>(n, p); break; \
    case 14: r = window_lanczos<T>(n); break; \
    case 15: r = window_cosine_np<T>(n); break; \
    case 16: r = window_planck_taper<T>(n, p); break; \
    case 17: r = window_tukey<T>(n, p); break; \
    } \
    for (size_t i = 0; i < r.size(); i++) out[i] = r[i]; \
    return r.size(); \
} \
E void win_chunk_##T(int type, u64 n, T p, int sym, u64 i, T* out) \
{ \
    expression_handle<T> h = window<T>(n, static_cast<window_type>(type), p, sym ? window_symmetry::symmetric : window_symmetry::periodic); \
    univector<T> r = truncate(slice(h, i), 1); \
    out[0] = r[0]; \
}
#define CASE_f32(W) case window_type::W: r = window<f32>(n, cwindow_type<window_type::W>, p, s); break;
#define CASE_f64(W) case window_type::W: r = window<f64>(n, cwindow_type<window_type::W>, p, s); break;
VIA(f32)
VIA(f64)
#endif
