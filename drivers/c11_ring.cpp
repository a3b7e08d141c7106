// entry points over the real ring buffer operations of univector
#include <kfr/base.hpp>
using namespace kfr;
#define E extern "C"
#define R(T) \
    E u64 wr_##T(T* data, u64 size, u64 cur, const T* src, u64 n) { univector<T, 0> v(data, size); v.ringbuf_write(cur, src, n); return cur; } \
    E u64 rd_##T(const T* data, u64 size, u64 cur, T* dst, u64 n) { univector<T, 0> v(const_cast<T*>(data), size); v.ringbuf_read(cur, dst, n); return cur; } \
    E u64 w1_##T(T* data, u64 size, u64 cur, const T* x) { univector<T, 0> v(data, size); v.ringbuf_write(cur, *x); return cur; } \
    E u64 r1_##T(const T* data, u64 size, u64 cur, T* x) { univector<T, 0> v(const_cast<T*>(data), size); v.ringbuf_read(cur, *x); return cur; } \
    E u64 st_##T(const T* data, u64 size, u64 cur, u64 n) { univector<T, 0> v(const_cast<T*>(data), size); v.ringbuf_step(cur, n); return cur; } \
    E u64 wv4_##T(T* data, u64 size, u64 cur, const T* src) { univector<T, 0> v(data, size); v.ringbuf_write(cur, read<4>(src)); return cur; } \
    E u64 rv4_##T(const T* data, u64 size, u64 cur, T* dst) { univector<T, 0> v(const_cast<T*>(data), size); vec<T, 4> x; v.ringbuf_read(cur, x); write(dst, x); return cur; } \
    E u64 wv3_##T(T* data, u64 size, u64 cur, const T* src) { univector<T, 0> v(data, size); v.ringbuf_write(cur, read<3>(src)); return cur; } \
    E u64 rv3_##T(const T* data, u64 size, u64 cur, T* dst) { univector<T, 0> v(const_cast<T*>(data), size); vec<T, 3> x; v.ringbuf_read(cur, x); write(dst, x); return cur; } \
    E u64 wf_##T(T* data, u64 cur, const T* src, u64 n) { univector<T, 5>& v = *reinterpret_cast<univector<T, 5>*>(data); v.ringbuf_write(cur, src, n); return cur; } \
    E u64 rf_##T(const T* data, u64 cur, T* dst, u64 n) { const univector<T, 5>& v = *reinterpret_cast<const univector<T, 5>*>(data); v.ringbuf_read(cur, dst, n); return cur; } \
    E u64 wd_##T(T* data, u64 size, u64 cur, const T* src, u64 n) { univector<T> v(data, data + size); v.ringbuf_write(cur, src, n); for (u64 i = 0; i < size; ++i) data[i] = v[i]; return cur; } \
    E u64 rdd_##T(const T* data, u64 size, u64 cur, T* dst, u64 n) { const univector<T> v(data, data + size); v.ringbuf_read(cur, dst, n); return cur; }
R(u8)
R(u16)
R(f32)
R(f64)
