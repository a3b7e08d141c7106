// entry points over the real biquad cascades
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#ifdef KVC_NATIVE
#include <dsp/biquad.cpp>
#endif
using namespace kfr;
#define E extern "C"
// one chunk of N samples of the cascade of F sections. c: F rows a1 a2 b0 b1 b2; st: s1[F] s2[F] out[F] of the running state, sv: the saved state
template <size_t F, typename T> static void load_state(iir_state<T, F>& s, const T* c, const T* st, const T* sv)
{
    for (size_t i = 0; i < F; ++i) { s.params.a1[i] = c[i]; s.params.a2[i] = c[F + i]; s.params.b0[i] = c[2 * F + i]; s.params.b1[i] = c[3 * F + i]; s.params.b2[i] = c[4 * F + i]; }
    s.state.s1 = read<F>(st); s.state.s2 = read<F>(st + F); s.state.out = read<F>(st + 2 * F);
    s.saved_state.s1 = read<F>(sv); s.saved_state.s2 = read<F>(sv + F); s.saved_state.out = read<F>(sv + 2 * F);
}
template <size_t F, typename T> static void store_state(const iir_state<T, F>& s, T* st, T* sv)
{
    write(st, s.state.s1); write(st + F, s.state.s2); write(st + 2 * F, s.state.out);
    write(sv, s.saved_state.s1); write(sv + F, s.saved_state.s2); write(sv + 2 * F, s.saved_state.out);
}
// in: the input of the pass [0, total); chunk at position pos
#define CH(T, F, N) \
    E void ch_##T##_##F##_##N(const T* c, T* st, T* sv, const T* in, u64 pos, u64 end, T* o) { \
        iir_state<T, F> s; load_state<F, T>(s, c, st, sv); s.block_end = end; auto e = iir(make_univector(in, end), std::ref(s)); \
        vec<T, N> v = get_elements(e, shape<1>{ pos }, axis_params_v<0, N>); v.write(o); store_state<F, T>(s, st, sv); }
#define BP(T, F) \
    E void bp_##T##_##F(const T* c, T* st, T* sv, const T* in, u64 start, u64 end) { \
        iir_state<T, F> s; load_state<F, T>(s, c, st, sv); s.block_end = 12345; auto e = iir(make_univector(in, end), std::ref(s)); \
        begin_pass(e, shape<1>{ start }, shape<1>{ end }); store_state<F, T>(s, st, sv); } \
    E u64 bpe_##T##_##F(const T* c, T* st, T* sv, const T* in, u64 start, u64 end) { \
        iir_state<T, F> s; load_state<F, T>(s, c, st, sv); s.block_end = 12345; auto e = iir(make_univector(in, end), std::ref(s)); \
        begin_pass(e, shape<1>{ start }, shape<1>{ end }); return F == 1 ? end : s.block_end; } \
    E void ep_##T##_##F(const T* c, T* st, T* sv, const T* in, u64 end) { \
        iir_state<T, F> s; load_state<F, T>(s, c, st, sv); auto e = iir(make_univector(in, end), std::ref(s)); \
        end_pass(e, shape<1>{ 0 }, shape<1>{ end }); store_state<F, T>(s, st, sv); }
#define CHS(T, F) CH(T, F, 1) CH(T, F, 2) CH(T, F, 4) CH(T, F, 8) BP(T, F)
CHS(f64, 1) CHS(f64, 2) CHS(f64, 4) CHS(f64, 8) CHS(f64, 3)
CHS(f32, 1) CHS(f32, 2) CHS(f32, 4) CHS(f32, 8)
#ifdef KVC_NATIVE
template <typename T> static std::vector<biquad_section<T>> secs(const T* c, u64 ns)
{
    std::vector<biquad_section<T>> v;
    for (u64 i = 0; i < ns; ++i) v.push_back(biquad_section<T>(T(1), c[5 * i], c[5 * i + 1], c[5 * i + 2], c[5 * i + 3], c[5 * i + 4]));
    return v;
}
template <typename T> static void stream(const T* c, u64 ns, const T* in, T* out, const i64* blocks, u64 nb, int how)
{
    auto sv = secs(c, ns);
    iir_filter<T> f{ iir_params<T>(sv) };
    auto h = iir(placeholder<T>(), iir_params<T>(sv));
    for (u64 i = 0; i < nb; ++i)
    {
        if (blocks[i] < 0) { f.reset(); continue; }
        u64 n = blocks[i];
        switch (how)
        {
        case 0: f.apply(out, in, n); break;
        case 1: std::copy(in, in + n, out); f.apply(out, n); break;
        case 2: substitute(h, to_handle(make_univector(in, n))); process(make_univector(out, n), h, shape<1>(0), shape<1>(n)); break;
        case 3: { univector<T> o(n); f.apply(o, make_univector(in, n) + T(0)); std::copy(o.begin(), o.end(), out); break; }
        case 5: { biquad_section<T> id[2]; univector<T> o(n); f.apply(o, iir(make_univector(in, n), iir_params<T, 2>(id, 2))); std::copy(o.begin(), o.end(), out); break; }
        case 4: { univector<T> x(in, in + n); f.apply(x); std::copy(x.begin(), x.end(), out); break; }
        }
        in += n; out += n;
    }
}
E void stream_f64(const f64* c, u64 ns, const f64* in, f64* out, const i64* b, u64 nb, int how) { stream<f64>(c, ns, in, out, b, nb, how); }
E void stream_f32(const f32* c, u64 ns, const f32* in, f32* out, const i64* b, u64 nb, int how) { stream<f32>(c, ns, in, out, b, nb, how); }
template <typename T, size_t F> static void fstream(const T* c, const T* in, T* out, const i64* blocks, u64 nb, int how)
{
    biquad_section<T> bq[F]; auto sv = secs(c, F); std::copy(sv.begin(), sv.end(), bq);
    iir_state<T, F> st{ iir_params<T, F>(bq, F) };
    u64 tot = 0; for (u64 i = 0; i < nb; ++i) tot += blocks[i];
    const T* in0 = in; T* out0 = out;
    if (how == 1) { make_univector(out, tot) = iir(make_univector(in, tot), iir_params<T, F>(bq, F)); return; }
    u64 pos = 0;
    for (u64 i = 0; i < nb; ++i)
    {
        u64 n = blocks[i];
        if (how == 0) make_univector(out, n) = iir(make_univector(in, n), std::ref(st));
        // a pass over a range that does not start at zero
        else if (how == 2) { auto o = make_univector(out0, tot); process(o, iir(make_univector(in0, tot), std::ref(st)), shape<1>(pos), shape<1>(n)); }
        // nested: identity FIRST, cascade around and inside another cascade
        else if (how == 3) make_univector(out, n) = iir(iir(make_univector(in, n), iir_params<T, 1>(biquad_section<T>())), std::ref(st));
        else if (how == 4) make_univector(out, n) = iir(iir(make_univector(in, n), std::ref(st)), iir_params<T, 1>(biquad_section<T>()));
        else if (how == 5) { biquad_section<T> id[2]; make_univector(out, n) = iir(iir(make_univector(in, n), std::ref(st)), iir_params<T, 2>(id, 2)); }
        in += n; out += n; pos += n;
    }
}
#define FS(F) E void fstream_##F##_f64(const f64* c, const f64* in, f64* out, const i64* b, u64 nb, int how) { fstream<f64, F>(c, in, out, b, nb, how); } \
    E void fstream_##F##_f32(const f32* c, const f32* in, f32* out, const i64* b, u64 nb, int how) { fstream<f32, F>(c, in, out, b, nb, how); }
FS(1) FS(2) FS(3) FS(4) FS(8)
E void norm_f64(const f64* c, f64* o) { biquad_section<f64> s(c[0], c[1], c[2], c[3], c[4], c[5]); auto a = s.normalized_a0(), b = s.normalized_b0(), d = s.normalized_all();
    f64 r[18] = { a.a0, a.a1, a.a2, a.b0, a.b1, a.b2, b.a0, b.a1, b.a2, b.b0, b.b1, b.b2, d.a0, d.a1, d.a2, d.b0, d.b1, d.b2 }; std::copy(r, r + 18, o); }
#endif
