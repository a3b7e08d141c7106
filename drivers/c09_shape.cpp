// shape and index algebra
#include <kfr/base.hpp>
#include "gsrc.hpp"
namespace ig = internal_generic;
#define E extern "C"
template <index_t D> static inline void st(size_t* o, const shape<D>& s) { idx_copy(o, s); }
#define R(D) \
E u64 to_flat_##D(const u64* s, const u64* i) { return mk<D>(s).to_flat(mk<D>(i)); } \
E void from_flat_##D(const u64* s, u64 k, u64* o) { st(o, mk<D>(s).from_flat(k)); } \
E u64 incr_##D(u64* i, const u64* a, const u64* b) { shape<D> x = mk<D>(i); bool r = ig::increment_indices(x, mk<D>(a), mk<D>(b)); st(i, x); return r; } \
E void incrr_##D(const u64* i, const u64* a, const u64* b, u64* o) { st(o, ig::increment_indices_return(mk<D>(i), mk<D>(a), mk<D>(b))); } \
E u64 cmpi_##D(const u64* i, const u64* b) { return ig::compare_indices(mk<D>(i), mk<D>(b)); } \
E void strides_##D(const u64* s, u64 k, u64* o) { st(o, ig::strides_for_shape(mk<D>(s), k)); } \
E void fstrides_##D(const u64* s, u64 k, u64* o) { st(o, ig::strides_for_shape<D, true>(mk<D>(s), k)); } \
E u64 size_##D(const u64* s) { return size_of_shape(mk<D>(s)); } \
E u64 prod_##D(const u64* s) { return mk<D>(s).product(); } \
E u64 sum_##D(const u64* s) { return mk<D>(s).sum(); } \
E u64 dot_##D(const u64* s, const u64* t) { return mk<D>(s).dot(mk<D>(t)); } \
E u64 inf_##D(const u64* s) { return mk<D>(s).has_infinity(); } \
E u64 tz_##D(const u64* s) { return mk<D>(s).trailing_zeros(); } \
E u64 eq_##D(const u64* s, const u64* t) { return mk<D>(s) == mk<D>(t); } \
E u64 rev_##D(const u64* s, u64 k) { return mk<D>(s).revindex(k); } \
E void srev_##D(u64* s, u64 k, u64 v) { shape<D> x = mk<D>(s); x.set_revindex(k, v); st(s, x); } \
E void adds_##D(const u64* s, const u64* t, u64* o) { st(o, add_shape(mk<D>(s), mk<D>(t))); } \
E void subs_##D(const u64* s, const u64* t, u64* o) { st(o, sub_shape(mk<D>(s), mk<D>(t))); } \
E void addu_##D(const u64* s, const u64* t, u64* o) { st(o, add_shape_undef(mk<D>(s), mk<D>(t))); } \
E void subu_##D(const u64* s, const u64* t, u64* o) { st(o, sub_shape_undef(mk<D>(s), mk<D>(t))); } \
E void mins_##D(const u64* s, const u64* t, u64* o) { st(o, min(mk<D>(s), mk<D>(t))); } \
E void addv_##D(const u64* s, u64 k, u64* o) { st(o, mk<D>(s).add(k)); } \
E void addw_##D(const u64* s, const u64* t, u64* o) { st(o, mk<D>(s).add(mk<D>(t))); } \
E void subw_##D(const u64* s, const u64* t, u64* o) { st(o, mk<D>(s).sub(mk<D>(t))); } \
E void adda_##D(const u64* s, u64 k, u64* o) { st(o, mk<D>(s).template add_at<0>(k)); } \
E void transp_##D(const u64* s, u64* o) { st(o, mk<D>(s).transpose()); } \
E void rotl_##D(const u64* s, u64* o) { st(o, mk<D>(s).rotate_left()); } \
E void rotr_##D(const u64* s, u64* o) { st(o, mk<D>(s).rotate_right()); } \
E void remb_##D(const u64* s, u64* o) { st(o, mk<D>(s).remove_back()); } \
E void remf_##D(const u64* s, u64* o) { st(o, mk<D>(s).remove_front()); } \
E void trunc_##D(const u64* s, u64* o) { st(o, mk<D>(s).trunc()); } \
E void ext_##D(const u64* s, u64 v, u64* o) { st(o, mk<D>(s).template extend<4>(v)); } \
E void trim_##D(const u64* s, u64* o) { st(o, mk<D>(s).template trim<(D + 1) / 2>()); } \
E void mask_##D(const u64* s, i8* o) { dimset m = mk<D>(s).tomask(); for (int i = 0; i < 16; i++) o[i] = m[i]; }
R(1) R(2) R(3) R(4)
#define RR(A, B) \
E void common_##A##B(const u64* s, const u64* t, u64* o) { st(o, ig::common_shape(mk<A>(s), mk<B>(t))); } \
E u64 assign_##A##B(const u64* s, const u64* t) { return ig::can_assign_from(mk<A>(s), mk<B>(t)); } \
E u64 layout_##A##B(const u64* s, const u64* t) { return ig::same_layout(mk<A>(s), mk<B>(t)); }
RR(1, 1) RR(1, 2) RR(2, 1) RR(2, 2) RR(1, 3) RR(3, 1) RR(2, 3) RR(3, 2) RR(3, 3) RR(1, 4) RR(4, 1) RR(2, 4) RR(4, 2) RR(3, 4) RR(4, 3) RR(4, 4)
#define AD(A, B) \
E void adapt_##A##B(const u64* s, const u64* i, u64* o) { st(o, mk<A>(s).adapt(mk<B>(i))); } \
E void adapts_##A##B(const u64* s, const u64* i, u64* o) { st(o, mk<A>(s).adapt(mk<B>(i), cbool<true>)); } \
E void adaptm_##A##B(const u64* s, const u64* i, u64* o) { st(o, ig::adapt<A>(mk<B>(i), mk<A>(s).tomask())); }
AD(1, 1) AD(1, 2) AD(2, 2) AD(1, 3) AD(2, 3) AD(3, 3) AD(1, 4) AD(2, 4) AD(3, 4) AD(4, 4)
E void common3_213(const u64* s, const u64* t, const u64* u, u64* o) { st(o, ig::common_shape(mk<2>(s), mk<1>(t), mk<3>(u))); }
E void common3_222(const u64* s, const u64* t, const u64* u, u64* o) { st(o, ig::common_shape(mk<2>(s), mk<2>(t), mk<2>(u))); }
E u64 szadd(u64 a, u64 b) { return size_add(a, b); }
E u64 szsub(u64 a, u64 b) { return size_sub(a, b); }
E u64 szmin2(u64 a, u64 b) { return size_min(a, b); }
E u64 szmin3(u64 a, u64 b, u64 c) { return size_min(a, b, c); }
E void compact_3(const u64* s, u64* o) { st(o, ig::compact_shape<3, 2, true, false>(mk<3>(s))); }
E void compact_4(const u64* s, u64* o) { st(o, ig::compact_shape<4, 2, false, true, false>(mk<4>(s))); }
#ifdef KVC_NATIVE
#include <stdexcept>
// shape of an expression of two or three operands; 0: incompatibility reported
template <index_t D> struct sh_expr : expression_traits_defaults
{
    using value_type = i32;
    constexpr static size_t dims = D;
    shape<D> sh;
    constexpr static shape<D> get_shape(const sh_expr& self) { return self.sh; }
    constexpr static shape<D> get_shape() { return shape<D>(undefined_size); }
};
template <index_t D, index_t A, size_t N>
vec<i32, N> get_elements(const sh_expr<D>&, const shape<D>&, const axis_params<A, N>&) { return vec<i32, N>(0); }
struct add3 { template <typename A, typename B, typename C> auto operator()(A a, B b, C c) const { return a + b + c; } };
E int checked(int k, const u64* a, const u64* b, const u64* c, u64* o)
{
    try
    {
        if (k == 2) st(o, get_shape(sh_expr<2>{ {}, mk<2>(a) } + sh_expr<2>{ {}, mk<2>(b) }));
        else st(o, get_shape(bind_expression(add3{}, sh_expr<2>{ {}, mk<2>(a) }, sh_expr<1>{ {}, mk<1>(b) }, sh_expr<3>{ {}, mk<3>(c) })));
        return 1;
    }
    catch (const std::exception&) { return 0; }
}
#endif
