// entry points over the real fraction type and integer helpers
#include <kfr/base.hpp>
#include <kfr/base/fraction.hpp>
using namespace kfr;
#define E extern "C"
static inline fraction raw(const i64* p) { fraction f; f.numerator = p[0]; f.denominator = p[1]; return f; }
#define OUT(v) { fraction r_ = (v); o[0] = r_.numerator; o[1] = r_.denominator; }
E void fr_make(i64* o, i64 n, i64 d) { OUT(fraction(n, d)) }
E void fr_make1(i64* o, i64 n) { OUT(fraction(n)) }
E void fr_add(i64* o, const i64* a, const i64* b) { OUT(raw(a) + raw(b)) }
E void fr_sub(i64* o, const i64* a, const i64* b) { OUT(raw(a) - raw(b)) }
E void fr_mul(i64* o, const i64* a, const i64* b) { OUT(raw(a) * raw(b)) }
E void fr_div(i64* o, const i64* a, const i64* b) { OUT(raw(a) / raw(b)) }
E void fr_adda(i64* o, const i64* a, const i64* b) { fraction x = raw(a); x += raw(b); OUT(x) }
E void fr_suba(i64* o, const i64* a, const i64* b) { fraction x = raw(a); x -= raw(b); OUT(x) }
E void fr_mula(i64* o, const i64* a, const i64* b) { fraction x = raw(a); x *= raw(b); OUT(x) }
E void fr_diva(i64* o, const i64* a, const i64* b) { fraction x = raw(a); x /= raw(b); OUT(x) }
E void fr_neg(i64* o, const i64* a) { OUT(-raw(a)) }
E void fr_pos(i64* o, const i64* a) { OUT(+raw(a)) }
#define CMP(nm, op) E u8 fr_##nm(const i64* a, const i64* b) { return raw(a) op raw(b) ? 1 : 0; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
E u8 fr_bool(const i64* a) { return bool(raw(a)) ? 1 : 0; }
E f64 fr_f64(const i64* a) { return double(raw(a)); }
E f32 fr_f32(const i64* a) { return float(raw(a)); }
E i64 fr_i64(const i64* a) { return i64(raw(a)); }
#define H(T) \
    E u8 ispot_##T(T x) { return is_poweroftwo<T>(x) ? 1 : 0; } \
    E u8 even_##T(T x) { return is_even<T>(x) ? 1 : 0; } \
    E u8 odd_##T(T x) { return is_odd<T>(x) ? 1 : 0; } \
    E u32 ilog_##T(T x) { return ilog2<T>(x); } \
    E T npot_##T(T x) { return next_poweroftwo<T>(x); } \
    E T ppot_##T(T x) { return prev_poweroftwo<T>(x); } \
    E u8 isdiv_##T(T x, T y) { return is_divisible<T>(x, y) ? 1 : 0; } \
    E T adn_##T(T x, T y) { return align_down<T>(x, y); } \
    E T aup_##T(T x, T y) { return align_up<T>(x, y); }
#define H2(T) \
    E T gcd_##T(T x, T y) { return gcd<T>(x, y); } \
    E T gcd3_##T(T x, T y, T z) { return gcd<T>(x, y, z); } \
    E T lcm_##T(T x, T y) { return lcm<T>(x, y); } \
    E T lcm3_##T(T x, T y, T z) { return lcm<T>(x, y, z); }
H(i8) H(u8) H(i16) H(u16) H(i32) H(u32) H(i64) H(u64)
H2(i32) H2(u32) H2(i64) H2(u64)
E u64 padn(u64 x, u64 a) { return reinterpret_cast<u64>(align_down(reinterpret_cast<float*>(x), a)); }
E u64 paup(u64 x, u64 a) { return reinterpret_cast<u64>(align_up(reinterpret_cast<float*>(x), a)); }
E void flr(i64* o, i64 a, i64 b) { auto r = floor_div(a, b); o[0] = r.quot; o[1] = r.rem; }
