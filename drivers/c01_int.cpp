// entry points over the real KFR vector operations; one symbol per operation, element type and length
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
template <typename T, size_t N> static inline vec<itype<T>, N> mbits(const mask<T, N>& m) { return bitcast<itype<T>>(m.asvec()); }
#define BIN(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); write(o, vec<T, N>(__VA_ARGS__)); }
#define UN(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa) { vec<T, N> a = read<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define CMP(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); write(ptr_cast<itype<T>>(o), mbits(__VA_ARGS__)); }
#define SCB(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, T b) { vec<T, N> a = read<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define SH(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, unsigned b) { vec<T, N> a = read<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define TRI(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb, const T* pc) { vec<T, N> a = read<N>(pa), b = read<N>(pb), c = read<N>(pc); write(o, vec<T, N>(__VA_ARGS__)); }
#define RED(nm, T, N, ...) \
    E u8 nm##_##T##_##N(const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); return (__VA_ARGS__) ? 1 : 0; }
#define COMMON(T, N) \
    BIN(add, T, N, a + b) BIN(sub, T, N, a - b) BIN(mul, T, N, a * b) BIN(band, T, N, a & b) BIN(bor, T, N, a | b) BIN(bxor, T, N, a ^ b) \
    BIN(andnot, T, N, bitwiseandnot(a, b)) UN(neg, T, N, -a) UN(bnot, T, N, ~a) \
    CMP(eq, T, N, a == b) CMP(ne, T, N, a != b) CMP(lt, T, N, a < b) CMP(le, T, N, a <= b) CMP(gt, T, N, a > b) CMP(ge, T, N, a >= b) \
    BIN(min, T, N, min(a, b)) BIN(max, T, N, max(a, b)) BIN(satadd, T, N, satadd(a, b)) BIN(satsub, T, N, satsub(a, b)) \
    TRI(sel, T, N, select(a < b, b, c)) TRI(seleq, T, N, select(a == b, c, a)) TRI(clamp, T, N, clamp(a, b, c)) \
    BIN(clamp2, T, N, clamp(a, b)) SCB(addsc, T, N, a + b) SCB(scsub, T, N, b - a) SCB(selsc, T, N, select(a > b, b, a)) \
    BIN(shlv, T, N, a << bitcast<utype<T>>(b)) BIN(shrv, T, N, a >> bitcast<utype<T>>(b)) SH(shl, T, N, a << b) SH(shr, T, N, a >> b) \
    RED(all, T, N, all(a < b)) RED(any, T, N, any(a == b)) \
    TRI(mand, T, N, select((a < b) & (b < c), a, c)) TRI(mor, T, N, select((a < b) || (b == c), a, c)) TRI(mxn, T, N, select(!(a < b) ^ (a == c), a, c)) \
    BIN(addasg, T, N, [&] { vec<T, N> x = a; x += b; x ^= a; x -= b; return x; }())
#define SIGNED(T, N) UN(abs, T, N, abs(a)) BIN(absmin, T, N, absmin(a, b)) BIN(absmax, T, N, absmax(a, b))
#define UNSIGNED(T, N) SH(rol, T, N, rol(a, b)) SH(ror, T, N, ror(a, b))
#define DIVS(T, N) BIN(div, T, N, a / b) BIN(mod, T, N, a % b)
#define SCALAR(T) \
    E void s_satadd_##T##_1(T* o, const T* a, const T* b) { *o = satadd(*a, *b); } E void s_satsub_##T##_1(T* o, const T* a, const T* b) { *o = satsub(*a, *b); } \
    E void s_min_##T##_1(T* o, const T* a, const T* b) { *o = min(*a, *b); } E void s_max_##T##_1(T* o, const T* a, const T* b) { *o = max(*a, *b); } \
    E void s_clamp_##T##_1(T* o, const T* a, const T* b, const T* c) { *o = clamp(*a, *b, *c); }
#define S_SC(T) SCALAR(T) E void s_abs_##T##_1(T* o, const T* a) { *o = abs(*a); }
#define SIZES8(M, T) M(T, 1) M(T, 3) M(T, 16) M(T, 32) M(T, 35)
#define SIZES16(M, T) M(T, 1) M(T, 3) M(T, 8) M(T, 16) M(T, 19)
#define SIZES32(M, T) M(T, 1) M(T, 3) M(T, 4) M(T, 8) M(T, 11)
#define SIZES64(M, T) M(T, 1) M(T, 2) M(T, 3) M(T, 4) M(T, 7)
#if KVC_BITS == 8
#define ALL(M, T) SIZES8(M, T)
#define TS i8
#define TU u8
#elif KVC_BITS == 16
#define ALL(M, T) SIZES16(M, T)
#define TS i16
#define TU u16
#elif KVC_BITS == 32
#define ALL(M, T) SIZES32(M, T)
#define TS i32
#define TU u32
#else
#define ALL(M, T) SIZES64(M, T)
#define TS i64
#define TU u64
#endif
#define GO1(T) ALL(COMMON, T) DIVS(T, 3)
#define GOS(T) GO1(T) ALL(SIGNED, T) S_SC(T)
#define GOU(T) GO1(T) ALL(UNSIGNED, T) SCALAR(T)
GOS(TS)
GOU(TU)
#if defined __AVX512F__
#define W512(T, N) COMMON(T, N)
#if KVC_BITS == 8
COMMON(i8, 64) SIGNED(i8, 64) COMMON(u8, 64)
#elif KVC_BITS == 16
COMMON(i16, 32) SIGNED(i16, 32) COMMON(u16, 32)
#elif KVC_BITS == 32
COMMON(i32, 16) SIGNED(i32, 16) COMMON(u32, 16)
#else
COMMON(i64, 8) SIGNED(i64, 8) COMMON(u64, 8)
#endif
#endif
