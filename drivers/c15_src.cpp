// sample rate conversion
#include <dsp/sample_rate_conversion.cpp>
using namespace kfr;
#define E extern "C"
typedef samplerate_converter<REALT> conv_t;
typedef univector_ref<const REALT> cref;
typedef std::make_signed_t<u64> s64_t;
struct acc : conv_t
{
    static i64& ip(conv_t& c) { return c.*(&acc::input_position); }
    static i64& op(conv_t& c) { return c.*(&acc::output_position); }
};
E void s_new(conv_t* p, int quality, i64 L, i64 D, REALT scale, REALT cutoff) { new (p) conv_t(static_cast<sample_rate_conversion_quality>(quality), L, D, scale, cutoff); }
// converter in an arbitrary state: depth, reduced factors, positions, taps and history as given
E void s_state(conv_t* p, i64 depth, i64 L, i64 D, i64 ip, i64 op, const REALT* filter, const REALT* delay)
{
    p->kaiser_beta = 0;
    p->depth = depth;
    p->taps = depth * L;
    p->order = depth * L - 1;
    p->interpolation_factor = L;
    p->decimation_factor = D;
    new (&p->filter) univector<REALT>(size_t(depth * L), REALT(0));
    new (&p->delay) univector<REALT>(size_t(depth), REALT(0));
    for (i64 i = 0; i < depth * L; i++) p->filter[i] = filter[i];
    for (i64 i = 0; i < depth; i++) p->delay[i] = delay[i];
    acc::ip(*p) = ip;
    acc::op(*p) = op;
}
E void s_get(conv_t* p, i64* o, REALT* filter, REALT* delay)
{
    o[0] = acc::ip(*p);
    o[1] = acc::op(*p);
    o[2] = p->depth;
    o[3] = p->taps;
    o[4] = p->interpolation_factor;
    o[5] = p->decimation_factor;
    o[6] = p->order;
    if (filter) for (size_t i = 0; i < p->filter.size(); i++) filter[i] = p->filter[i];
    if (delay) for (size_t i = 0; i < p->delay.size(); i++) delay[i] = p->delay[i];
}
E u64 s_process(conv_t* p, REALT* out, u64 n, const REALT* in, u64 m)
{
    univector_ref<REALT> o(out, n);
    return p->process(o, cref(in, m));
}
E u64 s_skip(conv_t* p, u64 n, const REALT* in, u64 m) { return p->skip(n, cref(in, m)); }
E i64 q_out(const conv_t* p, i64 n) { return p->output_size_for_input(n); }
E i64 q_in(const conv_t* p, i64 n) { return p->input_size_for_output(n); }
E i64 q_i2o(const conv_t* p, i64 n) { return p->input_position_to_output(n); }
E i64 q_o2i(const conv_t* p, i64 n) { return p->output_position_to_input(n); }
E i64 q_delay(const conv_t* p) { return p->get_delay(); }
E void q_div(i64 a, i64 b, i64* o) { auto r = floor_div(a, b); o[0] = r.quot; o[1] = r.rem; }
E u64 s_size() { return sizeof(conv_t); }
#ifdef KVC_NATIVE
E void s_free(conv_t* p) { p->~conv_t(); }
// complex samples behave as two independent real streams
typedef samplerate_converter<complex<REALT>> cconv_t;
E u64 z_process(cconv_t* p, complex<REALT>* out, u64 n, const complex<REALT>* in, u64 m)
{
    univector_ref<complex<REALT>> o(out, n);
    return p->process(o, univector_ref<const complex<REALT>>(in, m));
}
E void z_new(cconv_t* p, int quality, i64 L, i64 D) { new (p) cconv_t(static_cast<sample_rate_conversion_quality>(quality), L, D); }
E void z_free(cconv_t* p) { p->~cconv_t(); }
#endif
