// real, cosine and multi-dimensional transforms
#include "c16_dft.cpp"
typedef dct_plan<REALT> dct_t;
typedef dft_plan_md<REALT> md_t;
typedef dft_plan_md_real<REALT> mdr_t;
typedef complex<REALT> cpx;
E u64 r_csize(const rplan_t* p) { return p->complex_size(); }
E void dct_new(dct_t* p, u64 n) { new (p) dct_t(n); }
E void dct_x(const dct_t* p, REALT* out, const REALT* in, u8* temp, int inv) { p->execute(out, in, temp, inv != 0); }
template <index_t D> static shape<D> mk(const u64* d)
{
    shape<D> r;
    for (index_t i = 0; i < D; i++) r[i] = d[i];
    return r;
}
static shape<dynamic_shape> mkd(u64 dims, const u64* d)
{
    shape<dynamic_shape> r(dims);
    for (u64 i = 0; i < dims; i++) r[i] = d[i];
    return r;
}
E u64 md_new(md_t* p, u64 dims, const u64* d) { new (p) md_t(mkd(dims, d)); return p->temp_size; }
E void md_x(const md_t* p, cpx* out, const cpx* in, u8* temp, int inv) { p->execute(out, in, temp, inv != 0); }
E u64 mdr_new(mdr_t* p, u64 dims, const u64* d, int enough) { new (p) mdr_t(mkd(dims, d), enough != 0); return p->temp_size; }
E void mdr_f(const mdr_t* p, cpx* out, const REALT* in, u8* temp) { p->execute(out, in, temp); }
E void mdr_i(const mdr_t* p, REALT* out, const cpx* in, u8* temp) { p->execute(out, in, temp); }
E void mdr_fb(const mdr_t* p, cpx* out, const REALT* in, u8* temp) { p->execute(out, in, temp, false); }
E void mdr_ib(const mdr_t* p, REALT* out, const cpx* in, u8* temp) { p->execute(out, in, temp, true); }
#define STATIC_MD(D) \
    E u64 md##D##_new(dft_plan_md<REALT, D>* p, const u64* d) { new (p) dft_plan_md<REALT, D>(mk<D>(d)); return p->temp_size; } \
    E void md##D##_x(const dft_plan_md<REALT, D>* p, cpx* out, const cpx* in, u8* temp, int inv) { p->execute(out, in, temp, inv != 0); } \
    E u64 mdr##D##_new(dft_plan_md_real<REALT, D>* p, const u64* d, int enough) { new (p) dft_plan_md_real<REALT, D>(mk<D>(d), enough != 0); return p->temp_size; } \
    E void mdr##D##_f(const dft_plan_md_real<REALT, D>* p, cpx* out, const REALT* in, u8* temp) { p->execute(out, in, temp); } \
    E void mdr##D##_i(const dft_plan_md_real<REALT, D>* p, REALT* out, const cpx* in, u8* temp) { p->execute(out, in, temp); }
STATIC_MD(2)
STATIC_MD(3)
E u64 szs(u64* o) { o[0] = sizeof(rplan_t); o[1] = sizeof(dct_t); o[2] = sizeof(md_t); o[3] = sizeof(mdr_t); o[4] = sizeof(dft_plan_md_real<REALT, 3>); return 5; }
