#include "gsrc.hpp"
#define W1(NAME, ...) VIEW(NAME##_w1, 1, 0, 1, __VA_ARGS__) VIEW(NAME##_w2, 1, 0, 2, __VA_ARGS__) VIEW(NAME##_w4, 1, 0, 4, __VA_ARGS__) VIEW(NAME##_w8, 1, 0, 8, __VA_ARGS__) VSHAPE(NAME##_sh, 1, __VA_ARGS__)
#define W2(NAME, ...) VIEW(NAME##_w1, 2, 1, 1, __VA_ARGS__) VIEW(NAME##_w4, 2, 1, 4, __VA_ARGS__) VIEW(NAME##_w8, 2, 1, 8, __VA_ARGS__) VIEW(NAME##_a1, 2, 0, 1, __VA_ARGS__) VIEW(NAME##_a4, 2, 0, 4, __VA_ARGS__) VSHAPE(NAME##_sh, 2, __VA_ARGS__)
W1(slice1, slice(S1, mk<1>(p + 1), mk<1>(p + 2)))
W2(slice2, slice(S2, mk<2>(p + 2), mk<2>(p + 4)))
W1(trunc1, truncate(S1, mk<1>(p + 1)))
W2(trunc2, truncate(S2, mk<2>(p + 2)))
W1(pad1, padded(S1, v[0]))
W1(rev1, reverse(S1))
W2(rev2, reverse(S2))
W1(cat1, concatenate(S1, T1(1)))
W2(cat20, concatenate<0>(S2, T2(2)))
W2(cat21, concatenate<1>(S2, T2(2)))
W1(cat3, concatenate(S1, T1(1), U1(2)))
W1(cnt1, counter(v[0], v[1]))
W2(cnt2, counter(v[0], v[1], v[2]))
W1(seq3, sequence(v[0], v[1], v[2]))
W1(seq4, sequence(v[0], v[1], v[2], v[3]))
W1(lam1, lambda<i32>([v](shape<1> i) { return v[0] ^ i32(i[0]); }))
W2(lam2, lambda<i32, 2>([v](shape<2> i) { return (v[0] ^ i32(i[0])) + v[1] * i32(i[1]); }))
W1(fix1, fixshape(S1, fixed_shape<32>))
W1(dim1, dimensions<1>(S1))
W2(dim2, dimensions<2>(S1))
VIEW(dim23_w1, 3, 2, 1, dimensions<3>(S2)) VIEW(dim23_w4, 3, 2, 4, dimensions<3>(S2)) VIEW(dim23_a4, 3, 1, 4, dimensions<3>(S2)) VSHAPE(dim23_sh, 3, dimensions<3>(S2))
W1(sel1, select(S1 < T1(1), S1, T1(1)))
W1(sca1, dimensions<1>(scalar(v[0])))
// broadcast of a smaller operand
W2(brc2, S2 - T2(2))
VIEW(brd21_w1, 2, 1, 1, S2 - T1(2)) VIEW(brd21_w4, 2, 1, 4, S2 - T1(2)) VIEW(brd21_w8, 2, 1, 8, S2 - T1(2)) VSHAPE(brd21_sh, 2, S2 - T1(2))
W2(brs2, S2 - v[0])
W1(brs1, v[0] - S1)
// adjacent: previous element is kept from the previous chunk
#define ADJ(NAME, N)                                                                                                                   \
    extern "C" void NAME(const size_t* p, const i32* v, const size_t* ix, i32* out, i32* st)                                          \
    {                                                                                                                                  \
        auto e  = adjacent([](auto a, auto b) { return a - b * 3; }, S1);                                                              \
        e.data  = v[0];                                                                                                                \
        vec<i32, N> r = get_elements(e, mk<1>(ix), axis_params<0, N>{});                                                               \
        write(out, r);                                                                                                                 \
        st[0] = e.data;                                                                                                                \
    }
ADJ(adj_w1, 1) ADJ(adj_w2, 2) ADJ(adj_w4, 4) ADJ(adj_w8, 8)
extern "C" void adj_init(i32* st) { size_t p[1] = {5}; auto e = adjacent([](auto a, auto b) { return a - b; }, S1); st[0] = e.data; }
// reshape with concrete shapes
#define RSH(NAME, SD, DD, ...) VIEW(NAME##_w1, DD, DD - 1, 1, __VA_ARGS__) VIEW(NAME##_w4, DD, DD - 1, 4, __VA_ARGS__) VIEW(NAME##_a2, DD, 0, 2, __VA_ARGS__)
RSH(rsh12, 1, 2, reshape(gsrc<1>{ {}, shape{ 24 } }, shape{ 4, 6 }))
RSH(rsh21, 2, 1, reshape(gsrc<2>{ {}, shape{ 4, 6 } }, shape{ 24 }))
RSH(rsh22, 2, 2, reshape(gsrc<2>{ {}, shape{ 4, 6 } }, shape{ 3, 8 }))
RSH(rsh32, 3, 2, reshape(gsrc<3>{ {}, shape{ 2, 3, 4 } }, shape{ 4, 6 }))
RSH(rsh23, 2, 3, reshape(gsrc<2>{ {}, shape{ 4, 6 } }, shape{ 2, 3, 4 }))
// stores through views
STORE(st_slice1, 1, 0, 4, (gdst<1>{ { {}, mk<1>(p) } }), slice(d, mk<1>(p + 1), mk<1>(p + 2)))
STORE(st_slice2, 2, 1, 4, (gdst<2>{ { {}, mk<2>(p) } }), slice(d, mk<2>(p + 2), mk<2>(p + 4)))
STORE(st_trunc1, 1, 0, 4, (gdst<1>{ { {}, mk<1>(p) } }), truncate(d, mk<1>(p + 1)))
STORE(st_rsh22_w1, 2, 1, 1, (gdst<2>{ { {}, shape{ 4, 6 } } }), reshape(d, shape{ 3, 8 }))
STORE(st_rsh22_w4, 2, 1, 4, (gdst<2>{ { {}, shape{ 4, 6 } } }), reshape(d, shape{ 3, 8 }))
STORE(st_rsh12_w4, 2, 1, 4, (gdst<1>{ { {}, shape{ 24 } } }), reshape(d, shape{ 4, 6 }))
STORE(st_rsh21_w4, 1, 0, 4, (gdst<2>{ { {}, shape{ 4, 6 } } }), reshape(d, shape{ 24 }))
