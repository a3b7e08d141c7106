// entry points over the real random generators
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
static inline random_state ld(const u32* s) { random_state r; r.v = portable_vec<u32, 4>{ s[0], s[1], s[2], s[3] }; return r; }
static inline void st(u32* s, const random_state& r) { for (int i = 0; i < 4; i++) s[i] = r.v[i]; }
E void init4(u32* o, u32 a, u32 b, u32 c, u32 d) { st(o, random_init(a, b, c, d)); }
E void init2(u32* o, u64 a, u64 b) { st(o, random_init(a, b)); }
E void next1(u32* s) { random_state r = ld(s); random_next(r); st(s, r); }
#define RB(N) E void rb_##N(u32* s, u8* o) { random_state r = ld(s); vec<u8, N> v = random_bits<N>(r); v.write(o); st(s, r); }
RB(1) RB(2) RB(3) RB(4) RB(5) RB(7) RB(8) RB(11) RB(15) RB(16) RB(17) RB(19) RB(23) RB(24) RB(31) RB(32) RB(33) RB(40) RB(47) RB(48) RB(49) RB(64) RB(65) RB(80) RB(100) RB(128)
#define UN(T, N) \
    E void un_##T##_##N(u32* s, T* o) { random_state r = ld(s); vec<T, N> v = random_uniform<T, N>(r); v.write(o); st(s, r); } \
    E void ue_##T##_##N(u32* s, T* o, u32* s2) { random_state r = ld(s); auto e = gen_random_uniform<T>(std::ref(r)); vec<T, N> v = get_elements(e, shape<1>{ 5 }, axis_params_v<0, N>); v.write(o); \
        random_state q = ld(s); auto c = gen_random_uniform<T>(q); vec<T, N> w = get_elements(c, shape<1>{ 0 }, axis_params_v<0, N>); w.write(o + N); st(s, r); st(s2, q); }
#define RR(T, N) \
    E void rr_##T##_##N(u32* s, T* o, T lo, T hi) { random_state r = ld(s); vec<T, N> v = random_range<N, T>(r, lo, hi); v.write(o); st(s, r); } \
    E void re_##T##_##N(u32* s, T* o, T lo, T hi, u32* s2) { random_state r = ld(s); auto e = gen_random_range<T>(std::ref(r), lo, hi); vec<T, N> v = get_elements(e, shape<1>{ 5 }, axis_params_v<0, N>); v.write(o); \
        random_state q = ld(s); auto c = gen_random_range<T>(q, lo, hi); vec<T, N> w = get_elements(c, shape<1>{ 0 }, axis_params_v<0, N>); w.write(o + N); st(s, r); st(s2, q); }
#define UR(T, N) UN(T, N) RR(T, N)
#define URS(T) UR(T, 1) UR(T, 2) UR(T, 3) UR(T, 4) UR(T, 8)
URS(u8) URS(i8) URS(u16) URS(i16) URS(u32) URS(i32) URS(u64) URS(i64) URS(f32) URS(f64) UR(f32, 16) UR(f64, 13) UR(u8, 16) UR(i16, 19)
#ifdef KVC_NATIVE
#define FILL(T) E void fill_##T(u32* s, T* o, u64 n, T lo, T hi, int kind) { random_state r = ld(s); univector_ref<T> v(o, n); \
        if (kind == 0) v = gen_random_range<T>(std::ref(r), lo, hi); else if (kind == 1) v = gen_random_uniform<T>(std::ref(r)); else if (kind == 2) v = gen_random_range<T>(lo, hi); else if (kind == 3) v = gen_random_uniform<T>(); \
        if constexpr (std::is_floating_point_v<T>) { if (kind == 4) v = gen_random_normal<T>(std::ref(r), hi, lo); } st(s, r); }
FILL(u8) FILL(i8) FILL(u16) FILL(i16) FILL(u32) FILL(i32) FILL(u64) FILL(i64) FILL(f32) FILL(f64)
#endif
