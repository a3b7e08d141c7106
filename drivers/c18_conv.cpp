// convolution over the real DFT
#include <kfr/dft/convolution.hpp>
#include "c16_dft.cpp"
#undef E
#include <dft/convolution-impl.cpp>
#define E extern "C"
typedef convolve_filter<REALT> cf_t;
typedef univector_ref<const REALT> cref;
static u64 put(const univector<REALT>& r, REALT* out)
{
    for (size_t i = 0; i < r.size(); i++) out[i] = r[i];
    return r.size();
}
E u64 x_conv(const REALT* a, u64 n, const REALT* b, u64 m, REALT* out) { return put(convolve(cref(a, n), cref(b, m)), out); }
E u64 x_corr(const REALT* a, u64 n, const REALT* b, u64 m, REALT* out) { return put(correlate(cref(a, n), cref(b, m)), out); }
E u64 x_auto(const REALT* a, u64 n, REALT* out) { return put(autocorrelate(cref(a, n)), out); }
E void cf_new(cf_t* p, const REALT* h, u64 n, u64 block) { new (p) cf_t(cref(h, n), block); }
E void cf_new0(cf_t* p, u64 n, u64 block) { new (p) cf_t(n, block); }
E void cf_set(cf_t* p, const REALT* h, u64 n) { p->set_data(cref(h, n)); }
E void cf_reset(cf_t* p) { p->reset(); }
E u64 cf_block(cf_t* p) { return p->input_block_size(); }
E void cf_apply(cf_t* p, REALT* out, const REALT* in, u64 n) { p->apply(out, in, n); }
E void cf_inpl(cf_t* p, REALT* io, u64 n) { p->apply(io, n); }
#ifdef KVC_NATIVE
E void cf_expr(cf_t* p, REALT* out, const REALT* in, u64 n)
{
    univector_ref<REALT> o(out, n);
    p->apply(o, cref(in, n) * REALT(1));
}
E void cf_del(cf_t* p) { p->~cf_t(); }
#endif
