// entry points over the real KFR floating-point lane operations
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
template <typename T, size_t N> static inline vec<itype<T>, N> mbits(const mask<T, N>& m) { return bitcast<itype<T>>(m.asvec()); }
#define BIN(nm, T, N, ...) E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); write(o, vec<T, N>(__VA_ARGS__)); }
#define UN(nm, T, N, ...) E void nm##_##T##_##N(T* o, const T* pa) { vec<T, N> a = read<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define UNI(nm, T, N, ...) E void nm##_##T##_##N(itype<T>* o, const T* pa) { vec<T, N> a = read<N>(pa); write(o, vec<itype<T>, N>(__VA_ARGS__)); }
#define CMP(nm, T, N, ...) E void nm##_##T##_##N(itype<T>* o, const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); write(o, mbits(__VA_ARGS__)); }
#define CLS(nm, T, N, ...) E void nm##_##T##_##N(itype<T>* o, const T* pa) { vec<T, N> a = read<N>(pa); write(o, mbits(__VA_ARGS__)); }
#define SCB(nm, T, N, ...) E void nm##_##T##_##N(T* o, const T* pa, T b) { vec<T, N> a = read<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define TRI(nm, T, N, ...) E void nm##_##T##_##N(T* o, const T* pa, const T* pb, const T* pc) { vec<T, N> a = read<N>(pa), b = read<N>(pb), c = read<N>(pc); write(o, vec<T, N>(__VA_ARGS__)); }
#define RED(nm, T, N, ...) E u8 nm##_##T##_##N(const T* pa, const T* pb) { vec<T, N> a = read<N>(pa), b = read<N>(pb); return (__VA_ARGS__) ? 1 : 0; }
#define COMMON(T, N) \
    UN(floor, T, N, floor(a)) UN(ceil, T, N, ceil(a)) UN(trunc, T, N, trunc(a)) UN(round, T, N, round(a)) UN(fract, T, N, fract(a)) \
    UNI(ifloor, T, N, ifloor(a)) UNI(iceil, T, N, iceil(a)) UNI(itrunc, T, N, itrunc(a)) UNI(iround, T, N, iround(a)) \
    UN(abs, T, N, abs(a)) UN(neg, T, N, -a) BIN(min, T, N, min(a, b)) BIN(max, T, N, max(a, b)) BIN(absmin, T, N, absmin(a, b)) BIN(absmax, T, N, absmax(a, b)) \
    BIN(add, T, N, a + b) BIN(sub, T, N, a - b) BIN(mul, T, N, a * b) BIN(div, T, N, a / b) SCB(addsc, T, N, a + b) SCB(scsub, T, N, b - a) \
    BIN(copysign, T, N, copysign(a, b)) BIN(mulsign, T, N, mulsign(a, b)) TRI(clamp, T, N, clamp(a, b, c)) BIN(clamp2, T, N, clamp(a, b)) \
    CMP(eq, T, N, a == b) CMP(ne, T, N, a != b) CMP(lt, T, N, a < b) CMP(le, T, N, a <= b) CMP(gt, T, N, a > b) CMP(ge, T, N, a >= b) \
    CLS(isnan, T, N, isnan(a)) CLS(isinf, T, N, isinf(a)) CLS(isfinite, T, N, isfinite(a)) CLS(isneg, T, N, isnegative(a)) CLS(ispos, T, N, ispositive(a)) CLS(iszero, T, N, iszero(a)) \
    TRI(sel, T, N, select(a < b, b, c)) TRI(selm, T, N, select((a < b) && !(c == a), a, c)) \
    RED(all, T, N, all(a < b)) RED(any, T, N, any(a == b))
#define SCAL(T) \
    E void s_floor_##T(T* o, const T* a) { *o = floor(*a); } E void s_ceil_##T(T* o, const T* a) { *o = ceil(*a); } E void s_trunc_##T(T* o, const T* a) { *o = trunc(*a); } \
    E void s_round_##T(T* o, const T* a) { *o = round(*a); } E void s_abs_##T(T* o, const T* a) { *o = abs(*a); } \
    E void s_min_##T(T* o, const T* a, const T* b) { *o = min(*a, *b); } E void s_max_##T(T* o, const T* a, const T* b) { *o = max(*a, *b); }
#ifdef KVC_F32
COMMON(f32, 1) COMMON(f32, 3) COMMON(f32, 4) COMMON(f32, 8) COMMON(f32, 11) COMMON(f32, 16) SCAL(f32)
#else
COMMON(f64, 1) COMMON(f64, 2) COMMON(f64, 3) COMMON(f64, 4) COMMON(f64, 7) COMMON(f64, 8) SCAL(f64)
#endif
