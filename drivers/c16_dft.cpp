// entry points over the real DFT
#include <dft/dft.cpp>
#include <dft/fft-impl.hpp>
#include <dft/dft-impl.hpp>
#define FLOAT REALT
#include <dft/fft-templates.hpp>
#include <dft/dft-templates.hpp>
using namespace kfr;
#define E extern "C"
typedef dft_plan<REALT> plan_t;
typedef dft_plan_real<REALT> rplan_t;
E void c_new(plan_t* p, u64 n) { new (p) plan_t(n); }
E void r_new(rplan_t* p, u64 n, int fmt) { new (p) rplan_t(n, (dft_pack_format)fmt); }
E void c_fwd(const plan_t* p, complex<REALT>* out, const complex<REALT>* in, u8* temp) { p->execute(out, in, temp, false); }
E void c_inv(const plan_t* p, complex<REALT>* out, const complex<REALT>* in, u8* temp) { p->execute(out, in, temp, true); }
E void r_fwd(const rplan_t* p, complex<REALT>* out, const REALT* in, u8* temp) { p->execute(out, in, temp); }
E void r_inv(const rplan_t* p, REALT* out, const complex<REALT>* in, u8* temp) { p->execute(out, in, temp); }
E u64 p_sizes(u64* o) { o[0] = sizeof(plan_t); o[1] = sizeof(rplan_t); o[2] = offsetof(plan_t, size); o[3] = offsetof(plan_t, temp_size); return 4; }
