// entry points over the real complex vector arithmetic
#include <kfr/base.hpp>
#include <kfr/math/complex_math.hpp>
using namespace kfr;
#define E extern "C"
template <size_t N, typename T> static inline vec<complex<T>, N> rc(const T* p) { return read<N>(ptr_cast<complex<T>>(p)); }
template <size_t N, typename T> static inline void wc(T* o, const vec<complex<T>, N>& v) { write(ptr_cast<complex<T>>(o), v); }
template <typename T> static inline complex<T> sc(const T* p) { return complex<T>(p[0], p[1]); }
#define BC(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<complex<T>, N> a = rc<N>(pa), b = rc<N>(pb); wc<N>(o, vec<complex<T>, N>(__VA_ARGS__)); }
#define BCR(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<complex<T>, N> a = rc<N>(pa); vec<T, N> b = read<N>(pb); wc<N>(o, vec<complex<T>, N>(__VA_ARGS__)); }
#define BCS(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, const T* pb) { vec<complex<T>, N> a = rc<N>(pa); complex<T> b = sc(pb); wc<N>(o, vec<complex<T>, N>(__VA_ARGS__)); }
#define BCX(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa, T b) { vec<complex<T>, N> a = rc<N>(pa); wc<N>(o, vec<complex<T>, N>(__VA_ARGS__)); }
#define UC(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa) { vec<complex<T>, N> a = rc<N>(pa); wc<N>(o, vec<complex<T>, N>(__VA_ARGS__)); }
#define UR(nm, T, N, ...) \
    E void nm##_##T##_##N(T* o, const T* pa) { vec<complex<T>, N> a = rc<N>(pa); write(o, vec<T, N>(__VA_ARGS__)); }
#define SS(nm, T, ...) \
    E void nm##_##T(T* o, const T* pa, const T* pb) { complex<T> a = sc(pa), b = sc(pb); complex<T> r = (__VA_ARGS__); o[0] = r.real(); o[1] = r.imag(); }
#define SX(nm, T, ...) \
    E void nm##_##T(T* o, const T* pa, T b) { complex<T> a = sc(pa); complex<T> r = (__VA_ARGS__); o[0] = r.real(); o[1] = r.imag(); }
#define ALLN(T, N) \
    BC(cadd, T, N, a + b) BC(csub, T, N, a - b) BC(cmul, T, N, a * b) BC(cdiv, T, N, a / b) \
    BCR(caddr, T, N, a + b) BCR(csubr, T, N, a - b) BCR(cmulr, T, N, a * b) BCR(cdivr, T, N, a / b) \
    BCR(raddc, T, N, b + a) BCR(rsubc, T, N, b - a) BCR(rmulc, T, N, b * a) BCR(rdivc, T, N, b / a) \
    BCS(cadds, T, N, a + b) BCS(csubs, T, N, a - b) BCS(cmuls, T, N, a * b) BCS(cdivs, T, N, a / b) \
    BCS(sadd, T, N, b + a) BCS(ssub, T, N, b - a) BCS(smul, T, N, b * a) BCS(sdiv, T, N, b / a) \
    BCX(caddx, T, N, a + b) BCX(csubx, T, N, a - b) BCX(cmulx, T, N, a * b) BCX(cdivx, T, N, a / b) \
    BCX(xadd, T, N, b + a) BCX(xsub, T, N, b - a) BCX(xmul, T, N, b * a) BCX(xdiv, T, N, b / a) \
    UC(cneg, T, N, -a) UC(ccnj, T, N, cconj(a)) UC(csq, T, N, csqr(a)) UC(cdr, T, N, cdupreal(a)) UC(cdi, T, N, cdupimag(a)) UC(csw, T, N, cswapreim(a)) UC(cnr, T, N, cnegreal(a)) UC(cni, T, N, cnegimag(a)) \
    UR(cre, T, N, real(a)) UR(cim, T, N, imag(a)) UR(cabs2, T, N, cabssqr(a)) UR(cab, T, N, cabs(a)) \
    E void cmk_##T##_##N(T* o, const T* pa, const T* pb) { wc<N>(o, make_complex(read<N>(pa), read<N>(pb))); }
#define ALLT(T) \
    ALLN(T, 1) ALLN(T, 2) ALLN(T, 3) ALLN(T, 4) ALLN(T, 5) ALLN(T, 8) ALLN(T, 16) \
    SX(zconj, T, cconj(a))
ALLT(f32)
ALLT(f64)
