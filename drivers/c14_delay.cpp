// entry points over the real delays and moving sums
#include <kfr/base.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
using namespace kfr;
#define E extern "C"
static_assert(sizeof(moving_sum_state<double, tag_dynamic_vector>) == 40);
#if defined LEAFPART || defined KVC_NATIVE
// one chunk of a delay; the state is given and returned in stream order (oldest sample first)
#define DL(T, D, N) \
    E void dl_##T##_##D##_##N(T* seq, u64 cur, const T* in, T* out) { delay_state<T, D> st; for (u64 j = 0; j < D; ++j) st.data[(cur + j) % D] = seq[j]; st.cursor = cur; \
        auto e = delay(make_univector(in, N), std::ref(st)); vec<T, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); v.write(out); \
        for (u64 j = 0; j < D; ++j) seq[j] = st.data[(st.cursor + j) % D]; }
#define DLS(T, D) DL(T, D, 1) DL(T, D, 2) DL(T, D, 4) DL(T, D, 8) DL(T, D, 16)
#define DLT(T) DLS(T, 2) DLS(T, 3) DLS(T, 4) DLS(T, 5) DLS(T, 7) DLS(T, 8) DLS(T, 16) DLS(T, 17)
DLT(f32) DLT(f64) DLS(u8, 5) DLS(u8, 16) DLS(i16, 3)
#define D1(T, N) \
    E void dl_##T##_1_##N(T* seq, u64 cur, const T* in, T* out) { delay_state<T, 1> st; st.data = seq[0]; \
        auto e = expression_delay<1, univector<const T, 0>, false, 1>(make_univector(in, N), st); vec<T, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); v.write(out); seq[0] = e.state->data; }
#define D1S(T) D1(T, 1) D1(T, 2) D1(T, 4) D1(T, 8) D1(T, 16)
D1S(f32) D1S(f64)
#endif
#define MS(T, N) \
    E void ms_##T##_##N(moving_sum_state<T, tag_dynamic_vector>* st, const T* in, T* out) { auto e = expression_moving_sum<T, univector<const T, 0>, tag_dynamic_vector, true>(make_univector(in, N), std::ref(*st)); \
        vec<T, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); v.write(out); }
#define MSS(T) MS(T, 1) MS(T, 2) MS(T, 4) MS(T, 8)
#if defined STEPPART || defined KVC_NATIVE
MSS(f64) MSS(f32)
#endif
#if defined LEAFPART || defined KVC_NATIVE
// the same with the delay line in stream order, for small lengths
#define MF(T, L, N) \
    E void mf_##T##_##L##_##N(T* seq, u64 cur, const T* in, T* out) { moving_sum_state<T, L> st; for (u64 j = 0; j < L; ++j) st.delayline[(cur + j) % L] = seq[j]; st.head_cursor = cur; st.tail_cursor = (cur + 1) % L; \
        auto e = expression_moving_sum<T, univector<const T, 0>, L, true>(make_univector(in, N), std::ref(st)); \
        vec<T, N> v = get_elements(e, shape<1>{ 0 }, axis_params_v<0, N>); v.write(out); for (u64 j = 0; j < L; ++j) seq[j] = st.delayline[(st.head_cursor + j) % L]; seq[L] = T(st.tail_cursor == (st.head_cursor + 1) % L); }
#define MFS(T, L) MF(T, L, 1) MF(T, L, 2) MF(T, L, 4) MF(T, L, 8)
MFS(f64, 1) MFS(f64, 2) MFS(f64, 3) MFS(f64, 4) MFS(f64, 5) MFS(f64, 9) MFS(f32, 3) MFS(f32, 8) MFS(i32, 1) MFS(i32, 4) MFS(i32, 5)
E void mk1_f64(u64* o) { moving_sum_state<f64, 1> a; o[0] = a.head_cursor; o[1] = a.tail_cursor; moving_sum_state<f64, 4> b; o[2] = b.head_cursor; o[3] = b.tail_cursor; }
#endif
#ifdef KVC_NATIVE
template <typename T, size_t D> static void dstream(const T* in, T* out, const i64* blocks, u64 nb, int how)
{
    u64 tot = 0; for (u64 i = 0; i < nb; ++i) tot += blocks[i] > 0 ? blocks[i] : 0;
    if (how == 0) { make_univector(out, tot) = delay<D>(make_univector(in, tot)); return; }
    if constexpr (D > 1)
    {
        delay_state<T, D> st; delay_state<T, D, tag_dynamic_vector> sd;
        for (u64 i = 0; i < nb; ++i)
        {
            if (blocks[i] < 0) continue;
            u64 n = blocks[i];
            if (how == 1) make_univector(out, n) = delay(make_univector(in, n), std::ref(st));
            else if (how == 2) make_univector(out, n) = delay(make_univector(in, n), std::ref(sd));
            else { std::copy(in, in + n, out); make_univector(out, n) = delay(make_univector(out, n), std::ref(st)); }
            in += n; out += n;
        }
    }
}
#define DS(D) E void dstream_##D##_f64(const f64* in, f64* out, const i64* b, u64 nb, int how) { dstream<f64, D>(in, out, b, nb, how); } \
    E void dstream_##D##_i16(const i16* in, i16* out, const i64* b, u64 nb, int how) { dstream<i16, D>(in, out, b, nb, how); }
DS(1) DS(2) DS(3) DS(4) DS(5) DS(7) DS(8) DS(15) DS(16) DS(17) DS(33) DS(100)
template <typename T> static void mstream(u64 L, const T* in, T* out, const i64* blocks, u64 nb, int how)
{
    u64 tot = 0; for (u64 i = 0; i < nb; ++i) tot += blocks[i] > 0 ? blocks[i] : 0;
    if (how == 0) { make_univector(out, tot) = moving_sum(make_univector(in, tot), L); return; }
    moving_sum_state<T, tag_dynamic_vector> st(L);
    for (u64 i = 0; i < nb; ++i)
    {
        if (blocks[i] < 0) continue;
        u64 n = blocks[i];
        make_univector(out, n) = moving_sum(make_univector(in, n), std::ref(st));
        in += n; out += n;
    }
}
E void mstream_f64(u64 L, const f64* in, f64* out, const i64* b, u64 nb, int how) { mstream<f64>(L, in, out, b, nb, how); }
E void mstream_i32(u64 L, const i32* in, i32* out, const i64* b, u64 nb, int how) { mstream<i32>(L, in, out, b, nb, how); }
#endif
