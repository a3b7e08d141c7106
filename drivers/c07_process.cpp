// entry points over kfr::process with abstract source and destination expressions: every evaluation and every store of the
// real code becomes a call of a ghost function whose contract is stated in checks/C07.py
#include <kfr/base.hpp>
using namespace kfr;
extern "C"
{
    void ghost_get(const size_t* idx, size_t dims, size_t axis, size_t n, float* out);
    void ghost_set(const size_t* idx, size_t dims, size_t axis, size_t n, const float* in);
    void ghost_pass(size_t kind, size_t dims, const size_t* start, const size_t* stop);
}
#ifdef KVC_NATIVE // recording stand-ins for concrete replay
static void (*get_fn)(const size_t*, size_t, size_t, size_t, float*);
static void (*set_fn)(const size_t*, size_t, size_t, size_t, const float*);
extern "C" void set_cb(void (*g)(const size_t*, size_t, size_t, size_t, float*), void (*s)(const size_t*, size_t, size_t, size_t, const float*)) { get_fn = g; set_fn = s; }
extern "C" void ghost_get(const size_t* idx, size_t dims, size_t axis, size_t n, float* out) { get_fn(idx, dims, axis, n, out); }
extern "C" void ghost_set(const size_t* idx, size_t dims, size_t axis, size_t n, const float* in) { set_fn(idx, dims, axis, n, in); }
extern "C" void ghost_pass(size_t, size_t, const size_t*, const size_t*) {}
#endif
template <index_t D>
static inline void idx_copy(size_t* p, const shape<D>& s)
{
    if constexpr (D > 0)
        for (size_t k = 0; k < D; k++) p[k] = s[k];
}
template <index_t Dims>
struct gin : expression_traits_defaults
{
    using value_type             = float;
    constexpr static size_t dims = Dims;
    shape<Dims> sh;
    constexpr static shape<Dims> get_shape(const gin& s) { return s.sh; }
    constexpr static shape<Dims> get_shape()
    {
        if constexpr (Dims > 0) return shape<Dims>(undefined_size);
        else return {};
    }
    template <index_t A, size_t N>
    friend inline vec<float, N> get_elements(const gin& s, const shape<Dims>& i, const axis_params<A, N>&)
    {
        float buf[N];
        size_t ix[Dims + 1];
        idx_copy(ix, i);
        ghost_get(ix, Dims, A, N, buf);
        return read<N>(buf);
    }
    friend void begin_pass(const gin&, shape<Dims> a, shape<Dims> b)
    {
        size_t p[Dims + 1], q[Dims + 1];
        idx_copy(p, a); idx_copy(q, b);
        ghost_pass(0, Dims, p, q);
    }
    friend void end_pass(const gin&, shape<Dims> a, shape<Dims> b)
    {
        size_t p[Dims + 1], q[Dims + 1];
        idx_copy(p, a); idx_copy(q, b);
        ghost_pass(1, Dims, p, q);
    }
};
template <index_t Dims>
struct gout : expression_traits_defaults
{
    using value_type             = float;
    constexpr static size_t dims = Dims;
    shape<Dims> sh;
    constexpr static shape<Dims> get_shape(const gout& s) { return s.sh; }
    constexpr static shape<Dims> get_shape() { return shape<Dims>(undefined_size); }
    template <index_t A, size_t N>
    friend inline void set_elements(gout& s, const shape<Dims>& i, const axis_params<A, N>&, const identity<vec<float, N>>& v)
    {
        float buf[N];
        size_t ix[Dims + 1];
        idx_copy(ix, i);
        write(buf, v);
        ghost_set(ix, Dims, A, N, buf);
    }
    friend void begin_pass(const gout&, shape<Dims> a, shape<Dims> b)
    {
        size_t p[Dims + 1], q[Dims + 1];
        idx_copy(p, a); idx_copy(q, b);
        ghost_pass(2, Dims, p, q);
    }
    friend void end_pass(const gout&, shape<Dims> a, shape<Dims> b)
    {
        size_t p[Dims + 1], q[Dims + 1];
        idx_copy(p, a); idx_copy(q, b);
        ghost_pass(3, Dims, p, q);
    }
};
template <index_t D>
static shape<D> mk(const size_t* p)
{
    shape<D> s;
    if constexpr (D > 0)
        for (size_t k = 0; k < D; k++) s[k] = p[k];
    return s;
}
#define ENTRY(NAME, W, AX, OD, ID)                                                                                                     \
    extern "C" void NAME(size_t* ret, const size_t* oshape, const size_t* ishape, const size_t* start, const size_t* size)              \
    {                                                                                                                                  \
        gout<OD> o{ {}, mk<OD>(oshape) };                                                                                              \
        gin<ID> i{ {}, mk<ID>(ishape) };                                                                                               \
        shape<OD> r = process<W, AX>(o, i, mk<OD>(start), mk<OD>(size));                                                               \
        for (size_t k = 0; k < OD; k++) ret[k] = r[k];                                                                                 \
    }
// one row: the vector loop of the evaluation
#define ROW(NAME, W, AX, OD, ID)                                                                                                       \
    extern "C" void NAME(const size_t* outidx, const size_t* inidx, size_t start, size_t stop, size_t insize)                         \
    {                                                                                                                                  \
        gout<OD> o{ {}, shape<OD>(infinite_size) };                                                                                    \
        gin<ID> i{};                                                                                                                   \
        tprocess_body<gout<OD>&, gin<ID>&, AX, W, 1, float, OD, ID>(o, i, start, stop, insize, mk<OD>(outidx), mk<ID>(inidx));         \
    }
#ifndef C07_ROWS
ENTRY(p1, 0, infinite_size, 1, 1)
ENTRY(p1w1, 1, infinite_size, 1, 1)
ENTRY(p1w4, 4, infinite_size, 1, 1)
ENTRY(p1w3, 3, infinite_size, 1, 1)
ENTRY(p10, 0, infinite_size, 1, 0)
ROW(r1, 4, 0, 1, 1)
ROW(r2, 4, 1, 2, 2)
ROW(r2a0, 4, 0, 2, 2)
ROW(r21, 8, 1, 2, 1)
ROW(r20, 4, 1, 2, 0)
ROW(r3, 16, 2, 3, 3)
ROW(r3a1, 4, 1, 3, 3)
ROW(r32, 4, 2, 3, 2)
ROW(r4, 2, 3, 4, 4)
ROW(r4a2, 4, 2, 4, 4)
ROW(r5, 4, 4, 5, 5)
#endif
