// abstract source expression: every evaluation calls src_get, whose contract says "element at that position, position inside the shape"
#pragma once
#include <kfr/base.hpp>
using namespace kfr;
extern "C" void src_get(size_t id, const size_t* idx, size_t dims, size_t axis, size_t n, i32* out);
extern "C" void src_getf(size_t id, const size_t* idx, size_t dims, size_t axis, size_t n, f32* out);
extern "C" void dst_set(size_t id, const size_t* idx, size_t dims, size_t axis, size_t n, const i32* in);
#ifdef KVC_NATIVE // callbacks for concrete replay
static void (*src_fn)(size_t, const size_t*, size_t, size_t, size_t, i32*);
static void (*dst_fn)(size_t, const size_t*, size_t, size_t, size_t, const i32*);
extern "C" void set_src(void (*f)(size_t, const size_t*, size_t, size_t, size_t, i32*)) { src_fn = f; }
extern "C" void set_dst(void (*f)(size_t, const size_t*, size_t, size_t, size_t, const i32*)) { dst_fn = f; }
extern "C" void src_get(size_t id, const size_t* idx, size_t dims, size_t axis, size_t n, i32* out) { src_fn(id, idx, dims, axis, n, out); }
extern "C" void dst_set(size_t id, const size_t* idx, size_t dims, size_t axis, size_t n, const i32* in) { dst_fn(id, idx, dims, axis, n, in); }
#endif
template <index_t D>
static inline void idx_copy(size_t* p, const shape<D>& s)
{
    if constexpr (D > 0)
        for (size_t k = 0; k < D; k++) p[k] = s[k];
}
template <index_t D>
static shape<D> mk(const size_t* p)
{
    shape<D> s;
    if constexpr (D > 0)
        for (size_t k = 0; k < D; k++) s[k] = p[k];
    return s;
}
template <index_t Dims, size_t Id = 0, typename T = i32>
struct gsrc : expression_traits_defaults
{
    using value_type             = T;
    constexpr static size_t dims = Dims;
    constexpr static bool random_access = true;
    shape<Dims> sh;
    constexpr static shape<Dims> get_shape(const gsrc& s) { return s.sh; }
    constexpr static shape<Dims> get_shape()
    {
        if constexpr (Dims > 0) return shape<Dims>(undefined_size);
        else return {};
    }
    template <index_t A, size_t N>
    friend inline vec<T, N> get_elements(const gsrc&, const shape<Dims>& i, const axis_params<A, N>&)
    {
        T buf[N];
        size_t ix[Dims + 1];
        idx_copy(ix, i);
        if constexpr (std::is_same_v<T, f32>) src_getf(Id, ix, Dims, A, N, buf);
        else src_get(Id, ix, Dims, A, N, buf);
        return read<N>(buf);
    }
};
template <index_t Dims, size_t Id = 0, typename T = i32>
struct gdst : gsrc<Dims, Id, T>
{
    template <index_t A, size_t N>
    friend inline void set_elements(const gdst&, const shape<Dims>& i, const axis_params<A, N>&, const identity<vec<T, N>>& v)
    {
        T buf[N];
        size_t ix[Dims + 1];
        idx_copy(ix, i);
        write(buf, v);
        dst_set(Id, ix, Dims, A, N, buf);
    }
    template <index_t A, size_t N>
    friend inline vec<T, N> get_elements(const gdst& s, const shape<Dims>& i, const axis_params<A, N>& p)
    {
        return get_elements(static_cast<const gsrc<Dims, Id, T>&>(s), i, p);
    }
};
// VIEW(name, dims of the result, axis, N, expression): p = shapes and other sizes, v = values, ix = position
#define VIEW(NAME, D, AX, N, ...)                                                                                                      \
    extern "C" void NAME(const size_t* p, const i32* v, const size_t* ix, i32* out)                                                   \
    {                                                                                                                                  \
        auto e = __VA_ARGS__;                                                                                                          \
        vec<typename expression_traits<decltype(e)>::value_type, N> r = get_elements(e, mk<D>(ix), axis_params<AX, N>{});              \
        write((typename expression_traits<decltype(e)>::value_type*)out, r);                                                           \
    }
#define VSHAPE(NAME, D, ...)                                                                                                           \
    extern "C" void NAME(const size_t* p, const i32* v, size_t* out)                                                                  \
    {                                                                                                                                  \
        auto e = __VA_ARGS__;                                                                                                          \
        idx_copy(out, shape<D>(expression_traits<decltype(e)>::get_shape(e)));                                                        \
    }
#define STORE(NAME, D, AX, N, DST, ...)                                                                                                \
    extern "C" void NAME(const size_t* p, const i32* v, const size_t* ix)                                                             \
    {                                                                                                                                  \
        auto d = DST;                                                                                                                  \
        auto e = __VA_ARGS__;                                                                                                          \
        set_elements(e, mk<D>(ix), axis_params<AX, N>{}, read<N>(v));                                                                  \
    }
#define S1 (gsrc<1, 0>{ {}, mk<1>(p) })
#define S2 (gsrc<2, 0>{ {}, mk<2>(p) })
#define S3 (gsrc<3, 0>{ {}, mk<3>(p) })
#define T1(o) (gsrc<1, 1>{ {}, mk<1>(p + o) })
#define T2(o) (gsrc<2, 1>{ {}, mk<2>(p + o) })
#define U1(o) (gsrc<1, 2>{ {}, mk<1>(p + o) })
