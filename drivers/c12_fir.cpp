// entry points over the real FIR filters
#include <kfr/base.hpp>
#include <kfr/dsp/fir.hpp>
#include <kfr/dsp/delay.hpp>
#ifdef KVC_NATIVE
#include <dsp/fir.cpp>
#endif
using namespace kfr;
#define E extern "C"
static_assert(sizeof(fir_state<double, double>) == 56 && sizeof(univector<double>) == 24);
#if defined STEPPART || defined KVC_NATIVE
// one chunk of N samples through the filter with the state given by reference
#define STEP(nm, T, U, N) \
    E void step_##nm##_##N(fir_state<T, U>* st, const U* in, U* out) { auto e = fir(make_univector(in, N), std::ref(*st)); vec<U, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); v.write(out); }
#define STEPS(nm, T, U) STEP(nm, T, U, 1) STEP(nm, T, U, 2) STEP(nm, T, U, 4) STEP(nm, T, U, 8)
STEPS(f32, f32, f32)
STEPS(f64, f64, f64)
#endif
#if defined LEAFPART || defined KVC_NATIVE
// one chunk through the short filter; the state object is given
#define SSTEP(nm, T, TC, N) \
    E void sstep_##nm##_##TC##_##N(const T* taps, T* dl, const T* in, T* out) { \
        univector<T, TC> tp; for (size_t i = 0; i < TC; ++i) tp[i] = taps[i]; \
        short_fir_state<TC, T, T> st(tp); st.delayline = read<TC - 1>(dl); \
        auto e = short_fir(make_univector(in, N), std::ref(st)); vec<T, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); \
        v.write(out); write(dl, st.delayline); }
#define SSTEPT(nm, T, TC) SSTEP(nm, T, TC, 1) SSTEP(nm, T, TC, 2) SSTEP(nm, T, TC, 4) SSTEP(nm, T, TC, 8) SSTEP(nm, T, TC, 16)
#define SSTEPS(nm, T) SSTEPT(nm, T, 2) SSTEPT(nm, T, 3) SSTEPT(nm, T, 5) SSTEPT(nm, T, 9) SSTEPT(nm, T, 17) SSTEPT(nm, T, 33)
SSTEPS(f32, f32)
SSTEPS(f64, f64)
// construction from any tap count: widened with zeros
#define SMAKE(nm, T, K) \
    E void smake_##nm##_##K(const T* taps, T* o) { univector<T, K> tp; for (size_t i = 0; i < K; ++i) tp[i] = taps[i]; \
        constexpr size_t I = next_poweroftwo(K - 1) + 1; short_fir_state<I, T, T> st(tp); write(o, st.taps); write(o + I, st.delayline); }
SMAKE(f64, f64, 2) SMAKE(f64, f64, 3) SMAKE(f64, f64, 4) SMAKE(f64, f64, 5) SMAKE(f64, f64, 6) SMAKE(f64, f64, 7) SMAKE(f64, f64, 11) SMAKE(f64, f64, 16)
SMAKE(f32, f32, 4) SMAKE(f32, f32, 7)
#endif
#ifdef KVC_NATIVE
// a whole stream in blocks. how: 0 apply(dest,src,n) 1 in place 2 expression with a referenced state 3 apply(univector, expression) 4 univector apply. A negative block resets.
template <typename T, typename U>
static void stream(const T* taps, u64 nt, const U* in, U* out, const i64* blocks, u64 nb, int how)
{
    univector<T> tp(taps, taps + nt);
    fir_state<T, U> st{ fir_params<T>{ taps, nt } };
    fir_filter<T, U> f{ fir_state<T, U>{ fir_params<T>{ tp } } };
    for (u64 i = 0; i < nb; ++i)
    {
        if (blocks[i] < 0) { f.reset(); st = fir_state<T, U>{ fir_params<T>{ taps, nt } }; continue; }
        u64 n = blocks[i];
        switch (how)
        {
        case 0: f.apply(out, in, n); break;
        case 1: std::copy(in, in + n, out); f.apply(out, n); break;
        case 2: { make_univector(out, n) = fir(make_univector(in, n), std::ref(st)); break; }
        case 3: { univector<U> o(n); f.apply(o, make_univector(in, n) + U(0)); std::copy(o.begin(), o.end(), out); break; }
        case 4: { univector<U> o, x(in, in + n); f.apply(o, x); std::copy(o.begin(), o.end(), out); break; }
        case 5: { univector<U> o(n); o = fir(fir(make_univector(in, n), fir_params<T>{ univector<T>{ T(1) } }), std::ref(st)); std::copy(o.begin(), o.end(), out); break; }
        }
        in += n; out += n;
    }
}
E void stream_f64_f64(const f64* t, u64 nt, const f64* in, f64* out, const i64* b, u64 nb, int how) { stream<f64, f64>(t, nt, in, out, b, nb, how); }
E void stream_f32_f32(const f32* t, u64 nt, const f32* in, f32* out, const i64* b, u64 nb, int how) { stream<f32, f32>(t, nt, in, out, b, nb, how); }
E void stream_f32_f64(const f32* t, u64 nt, const f64* in, f64* out, const i64* b, u64 nb, int how) { stream<f32, f64>(t, nt, in, out, b, nb, how); }
E void stream_f64_f32(const f64* t, u64 nt, const f32* in, f32* out, const i64* b, u64 nb, int how) { stream<f64, f32>(t, nt, in, out, b, nb, how); }
E void stream_f32_c32(const f32* t, u64 nt, const complex<f32>* in, complex<f32>* out, const i64* b, u64 nb, int how) { stream<f32, complex<f32>>(t, nt, in, out, b, nb, how); }
E void stream_f64_c64(const f64* t, u64 nt, const complex<f64>* in, complex<f64>* out, const i64* b, u64 nb, int how) { stream<f64, complex<f64>>(t, nt, in, out, b, nb, how); }
template <typename T, typename U, size_t K>
static void sstream(const T* taps, const U* in, U* out, const i64* blocks, u64 nb, int how)
{
    univector<T, K> tp; for (size_t i = 0; i < K; ++i) tp[i] = taps[i];
    constexpr size_t I = next_poweroftwo(K - 1) + 1;
    if (how == 1) { u64 n = 0; for (u64 i = 0; i < nb; ++i) n += blocks[i] > 0 ? blocks[i] : 0; make_univector(out, n) = short_fir(make_univector(in, n), tp); return; }
    short_fir_state<I, T, U> st(tp);
    for (u64 i = 0; i < nb; ++i)
    {
        if (blocks[i] < 0) { st = short_fir_state<I, T, U>(tp); continue; }
        make_univector(out, blocks[i]) = short_fir(make_univector(in, blocks[i]), std::ref(st));
        in += blocks[i]; out += blocks[i];
    }
}
#define SS(K) E void sstream_##K##_f64(const f64* t, const f64* in, f64* out, const i64* b, u64 nb, int how) { sstream<f64, f64, K>(t, in, out, b, nb, how); } \
    E void sstream_##K##_f32(const f32* t, const f32* in, f32* out, const i64* b, u64 nb, int how) { sstream<f32, f32, K>(t, in, out, b, nb, how); } \
    E void sstream_##K##_c32(const f32* t, const complex<f32>* in, complex<f32>* out, const i64* b, u64 nb, int how) { sstream<f32, complex<f32>, K>(t, in, out, b, nb, how); }
SS(2) SS(3) SS(4) SS(5) SS(6) SS(7) SS(9) SS(16) SS(17) SS(32)
E void fracd_f64(f64 d, const f64* in, f64* out, u64 n) { make_univector(out, n) = fracdelay(make_univector(in, n), d); }
#endif
