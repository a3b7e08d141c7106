"""writes properties.jsonl (single source of the property texts)"""
import json, os
P = []


def p(id, title, st, over, qt, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why, 'anchors': a})


S = 'include/kfr/simd/'
B = 'include/kfr/base/'
D = 'include/kfr/dsp/'
F = 'include/kfr/dft/'
p('C01', 'Integer vector operations equal the scalar operation in every lane',
  'For every integer element type, vector length and instruction set, each arithmetic, bitwise, shift, comparison, select, min/max, clamp, abs and saturating operation on vectors gives in every lane exactly what the scalar two\'s-complement operation gives on the lanes of its operands (wrap-around for plain, clamping at the type limits for saturating arithmetic). No lane depends on any other lane or on padding lanes of a vector whose length is not a native register size.',
  ['inputs', 'configurations'], 'all lane values of all integer types i8..u64, vector lengths below, equal to and above the register width, SSE2/SSE4.1/AVX2/AVX-512 code paths',
  'Unit tests sample a few dozen value pairs per type; 2^16..2^128 operand pairs times lengths times instruction sets cannot be enumerated, and each instruction set has its own emulation code.',
  [S + 'impl/saturation.hpp', S + 'impl/min_max.hpp', S + 'impl/abs.hpp', S + 'impl/select.hpp', S + 'impl/basicoperators_generic.hpp', S + 'impl/basicoperators_clang.hpp', S + 'operators.hpp', S + 'impl/function.hpp', S + 'impl/clamp.hpp'],
  [('per-ISA intrinsics with bit-trick fallbacks', S + 'impl'), ('splitting / widening of non-native lengths', S + 'impl/function.hpp')])
p('C02', 'Float rounding, min/max, abs, sign and comparison are exact in every lane',
  'For every float and double value, floor, ceil, trunc, round, fract and their integer-returning forms give the exact mathematical result on every instruction set whenever it is representable (values at or beyond the integer-only range are returned unchanged, and round goes to a nearest integer). abs, min, max, clamp, copysign, select, comparisons and finite/NaN/infinity classification agree per lane with their IEEE-754 scalar definition for all non-NaN operands.',
  ['inputs', 'configurations'], 'all 2^32 / 2^64 bit patterns per lane, all instruction sets, native and non-native vector lengths',
  'Tests check a few hand-picked values; the pre-SSE4.1 emulations go wrong only in narrow value windows (just below one half, around 2^23 / 2^52).',
  [S + 'impl/round.hpp', S + 'impl/min_max.hpp', S + 'impl/abs.hpp', S + 'impl/select.hpp', S + 'comparison.hpp', S + 'operators.hpp', S + 'impl/clamp.hpp'],
  [('emulated rounding with magnitude guard', S + 'impl/round.hpp'), ('bit-mask abs and select', S + 'impl')])
p('C03', 'Lane shuffles move every element to its documented place',
  'Every lane-rearranging operation (slice, concatenate, reverse, rotate, shift-in, interleave, de-interleave, blend, duplicate, transpose, bit-reversal and digit-reversal permutations, complex real/imaginary split and join) puts exactly the documented source element, bit for bit, in each destination lane. Operations documented as inverse pairs compose to the identity for every length, group size and element type.',
  ['inputs', 'configurations'], 'all lane contents (bit-exact, including NaN payloads), element types, lengths and group sizes, instruction sets',
  'Tests use one iota vector for a few lengths of one type, which cannot distinguish lane aliasing in other lengths, group sizes or types.',
  [S + 'shuffle.hpp', S + 'digitreverse.hpp', S + 'complex.hpp', S + 'impl/backend_generic.hpp', S + 'vec.hpp', B + 'transpose.hpp'],
  [('compile-time shuffle index generation', S + 'shuffle.hpp'), ('split/concat lowering to the compiler back end', S + 'impl/backend_clang.hpp')])
p('C04', 'Vector sort returns the ordered permutation of its input',
  'Sorting a vector ascending or descending yields the same multiset of lane values in non-decreasing or non-increasing order for every input without NaNs, including duplicates and extreme values.',
  ['inputs', 'configurations'], 'all lane values, power-of-two lengths, all element types and instruction sets',
  'A sorting network with one wrong comparator sorts almost every sampled vector; the tests use one vector.',
  [S + 'sort.hpp'], [('bitonic network', S + 'sort.hpp')])
p('C05', 'Reductions use every element exactly once',
  'Sum, product, mean, sum of squares, root-mean-square, dot product, minimum, maximum and their absolute-value forms over vectors and over expressions of any length combine every element of the input exactly once and nothing else. The result equals the mathematical fold (exactly for integers and min/max, up to reassociation rounding for floating point), whatever the length relative to the internal chunk width.',
  ['inputs', 'configurations'], 'all element values, all lengths (with and without a partial tail), all instruction sets',
  'A lost, doubled or padding element in the tail of the chunked loop shows only for particular lengths and values; tests use a few lengths.',
  [B + 'reduce.hpp', S + 'horizontal.hpp'], [('vector accumulator with scalar tail and horizontal fold', B + 'reduce.hpp'), ('pairwise horizontal fold', S + 'horizontal.hpp')])
p('C06', 'Sample format conversion and channel interleaving are faithful',
  'Converting samples between any two of the audio sample formats maps every value to the documented scaled value, never wraps past full scale, and integer-to-wider-integer-to-integer and integer-to-sufficiently-wide-float-to-integer round trips return the original sample (the most negative integer code, which lies below negative full scale, saturates to it). Interleaving and de-interleaving move every channel sample to its place and are inverses of each other for any channel count and length.',
  ['inputs', 'configurations'], 'all sample values of all format pairs, all channel counts and lengths',
  'Tests convert a handful of values; overflow at full scale and off-by-one truncation occur at isolated values out of 2^16..2^64.',
  [B + 'conversion.hpp'], [('scale and clamp', B + 'conversion.hpp'), ('channel loops', B + 'conversion.hpp')])
p('C07', 'Expression evaluation writes each element of the range once and nothing else',
  'Assigning an expression to a destination over a range evaluates the source at exactly the positions of that range and stores exactly one value per position, in every dimension, for every start, size and vector width, and touches nothing outside the range. Every built-in element-wise expression yields at position i the same value whether evaluated alone or inside a wider chunk.',
  ['inputs', 'configurations'], 'all range starts and sizes, all chunk widths (scalar tail, odd tails), 1-D and multi-dimensional shapes, all operand values',
  'The chunk-plus-tail decomposition depends on size, start and width together; tests use a few sizes and one compiled width.',
  [B + 'expression.hpp', B + 'basic_expressions.hpp', B + 'univector.hpp', B + 'tensor.hpp'], [('main loop plus tail loop', B + 'expression.hpp'), ('expression_function lane evaluation', B + 'expression.hpp')])
p('C08', 'View and adaptor expressions map each output position to the documented source',
  'Slicing, truncating, padding, reversing, concatenating, repeating by broadcast, counting, sequences, adjacent-element functions, dimension changes and conditional selection yield at each position exactly the element of the source that the operation documents, and the documented fill value where there is none. This holds independently of how the evaluation is cut into chunks and where the chunk boundaries fall relative to the view boundaries.',
  ['inputs', 'configurations'], 'all source contents, all offsets and sizes, all chunk widths and chunk positions straddling the boundaries',
  'Bugs hide in chunks that straddle the view boundary at a particular width and offset; tests assign whole vectors of one or two sizes.',
  [B + 'basic_expressions.hpp', B + 'expression.hpp', B + 'generators.hpp', B + 'transpose.hpp'], [('boundary case split per chunk', B + 'basic_expressions.hpp')])
p('C09', 'Shape and index algebra is consistent in every dimension count',
  'Flat position and multi-dimensional index convert into each other without loss for every index inside a shape, and stepping an index visits every position once in flat order. Broadcast compatibility, common shapes, strides, products and size queries agree with the row-major definition, and infinite sizes absorb as documented.',
  ['inputs', 'configurations'], 'all index values and dimension sizes, for ranks 1 to 4',
  'Carry, stride and broadcast errors need specific combinations of sizes (ones, zeros, infinite); tests fix a few shapes.',
  [B + 'shape.hpp'], [('carry propagation, row-major strides, broadcast rule', B + 'shape.hpp')])
p('C10', 'Tensor views address the elements that array slicing defines',
  'Indexing, slicing with start/stop/step (negative ones included), reshaping and transposing a tensor produce views whose shape and elements are those of the same operation in NumPy, for every combination inside the bounds, and never address storage outside the original tensor. Reading or writing through a view affects exactly those elements.',
  ['inputs', 'configurations'], 'all start/stop/step values, ranks and sizes',
  'Tests enumerate a few slices of one small tensor; negative steps and clamping interact with sizes.',
  [B + 'tensor.hpp', B + 'shape.hpp', B + 'transpose.hpp'], [('range normalisation to offset and strides', B + 'tensor.hpp')])
p('C11', 'Ring buffer reads and writes preserve order and stay in bounds',
  'Writing any number of samples into a ring buffer stores the most recent ones in order and advances the cursor by the number of samples written modulo the buffer size; reading returns the samples from the cursor onward in order. No element other than those covered is modified and nothing outside the buffer is accessed, for any cursor and any transfer length including lengths longer than the buffer.',
  ['inputs', 'histories'], 'all buffer sizes, cursor positions, transfer lengths and contents; any sequence of operations',
  'Wrap-around at every cursor and length combination cannot be enumerated; tests do one short write sequence.',
  [B + 'univector.hpp'], [('two-piece copy with wrapped cursor', B + 'univector.hpp')], [('cursor', 'next position', B + 'univector.hpp')])
p('C12', 'FIR filtering equals the convolution sum however the input is blocked',
  'The output of a FIR filter at time n is the sum over taps of tap k times input n-k with zero history before the start (or after a reset), for every tap set and input. Splitting the stream into blocks of any sizes, including one sample at a time, gives the same output sequence, and a block never reads or writes outside its buffers.',
  ['inputs', 'histories', 'configurations'], 'all taps and samples, all splits of the stream into blocks, fixed and run-time tap counts, all instruction sets',
  'State carried across block boundaries depends on the split and on block sizes relative to the tap count and the vector width; tests use one split.',
  [D + 'fir.hpp', 'src/dsp/fir.cpp'], [('delay line with cursor', D + 'fir.hpp'), ('in-register delay line', D + 'fir.hpp')], [('delay line', 'last taps-1 inputs', D + 'fir.hpp')])
p('C13', 'Biquad cascades implement the IIR recurrence however the input is blocked',
  'Filtering through a cascade of second-order sections yields, section after section, the direct recurrence b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] for every coefficient set, number of sections and input, starting from zero state after construction or reset. Processing the stream in blocks of any sizes, in place or not, gives the same output as processing it at once.',
  ['inputs', 'histories', 'configurations'], 'all coefficients and samples, section counts 1 to the maximum, all splits into blocks',
  'Pipelined evaluation of sections makes block boundaries special in a way that depends on block size and section count; tests process whole vectors.',
  [D + 'biquad.hpp', 'src/dsp/biquad.cpp', D + 'iir.hpp'], [('pipelined sections with saved state', D + 'biquad.hpp')], [('state', 'per-section delay registers', D + 'biquad.hpp')])
p('C14', 'Delays and moving sums are exact streaming operators',
  'A delay of D outputs the input of D samples ago (zeros, or the initial state, before that), and a moving sum of length L outputs the sum of the last L inputs, for every D, L and input. Both give the same sequence however the stream is split into blocks, and never access memory outside their state.',
  ['inputs', 'histories', 'configurations'], 'all samples, delay and window lengths from 1 upward, all block splits',
  'Ring-buffer wrap points interact with block boundaries and with degenerate lengths; tests use one length.',
  [D + 'delay.hpp', D + 'fir.hpp'], [('ring buffer with cursor', D + 'delay.hpp'), ('running sum with tail cursor', D + 'fir.hpp')])
p('C15', 'Sample-rate conversion is blocking-invariant and stays in bounds',
  'A sample-rate converter produces for each requested output block exactly the samples the position arithmetic assigns to it, so that converting a stream in blocks of any sizes concatenates to the same output as converting it at once, and its size queries agree with what it consumes and produces. It never reads outside the input block and its stored history.',
  ['inputs', 'histories', 'configurations'], 'all rate pairs, block sizes and sample values; filters as data',
  'Position carry between blocks depends on the rate ratio and on every previous block; tests convert one tone in one call.',
  [D + 'sample_rate_conversion.hpp'], [('integer position counters, phase-indexed filter bank, delay history', D + 'sample_rate_conversion.hpp')])
p('C16', 'Complex DFT equals the DFT sum, and the inverse undoes it',
  'For every size and every input, the forward complex transform equals the sum of x[n] exp(-2 pi i n k / N) and the inverse the unscaled conjugate sum, within rounding error, on every instruction set, in place or out of place. Executing inverse after forward returns N times the input, and results depend only on the input, not on scratch memory contents.',
  ['inputs', 'configurations'], 'all input vectors for each transform size; sizes cover powers of two, mixed radices, primes',
  'Tests compare random inputs at tolerance for a few sizes; a wrong twiddle or lane in one butterfly of one size/radix/architecture path is not covered, and in-place and misused scratch are not sampled.',
  ['src/dft/fft-impl.hpp', 'src/dft/dft-impl.hpp', 'src/dft/ft.hpp', 'src/dft/bitrev.hpp', 'src/dft/dft.cpp', F + 'fft.hpp'], [('staged butterflies with precomputed twiddles and digit reversal', 'src/dft')])
p('C17', 'Real DFT, DCT and multi-dimensional DFT equal their definitions',
  'The real-to-complex transform gives the non-redundant half of the complex transform of its input in both packed formats, the complex-to-real transform its unscaled inverse, DCT types and multi-dimensional transforms their defining sums, for every even size (real), every size (DCT) and every shape, within rounding error and for every input.',
  ['inputs', 'configurations'], 'all input vectors for each size and shape',
  'Only a few sizes with random data are tested; the real-spectrum post-processing has special first, middle and last bins per size and vector width.',
  ['src/dft/fft-impl.hpp', 'src/dft/dft-impl.hpp', F + 'fft.hpp', 'src/dft/dft.cpp'], [('split/merge of even-odd spectra', 'src/dft/dft-impl.hpp')])
p('C18', 'FFT convolution equals the convolution sum, one-shot and in blocks',
  'Convolving, correlating and auto-correlating two sequences of any lengths by FFT gives the defining sum, within rounding error, for every real input. The streaming convolution filter gives the convolution of the whole stream with the impulse response, however the stream is split into blocks and whatever the filter block size, and starts again from zero history after a reset.',
  ['inputs', 'histories', 'configurations'], 'all data, lengths, impulse-response lengths, block sizes and block splits',
  'Overlap-save bookkeeping depends on block split, position and partition count; tests run one configuration.',
  [F + 'convolution.hpp', 'src/dft/convolution-impl.cpp'], [('uniformly partitioned overlap with saved segments', 'src/dft/convolution-impl.cpp')], [('overlap, position, saved input', 'history across blocks', F + 'convolution.hpp')])
p('C19', 'NPY encoding round-trips and decoding never trusts the file',
  'Encoding a tensor to the NPY format and decoding it returns the same shape and element bytes for every supported element type, shape and content. Decoding arbitrary bytes either returns a tensor fully backed by data from the file or reports an error; it never reads or writes out of bounds, loops forever or returns uninitialised data.',
  ['inputs', 'fault_sequences'], 'all tensors; all byte strings as input, including truncated and malformed headers',
  'The space of malformed headers and truncations is unbounded; tests decode two or three well-formed files.',
  [B + 'npy.hpp'], [('header parser, size checks', B + 'npy.hpp')])
p('C20', 'Random generation is deterministic and stays within its range',
  'From the same seed the same sequence of requests yields the same values on every instruction set: each request consumes whole 16-byte generator steps in order, however many values it asks for. Uniform values are the drawn bits (integers) or lie in [0, 1) (floating point), ranged values lie between the requested bounds for every type and every pair of bounds, and generator expressions yield what the direct calls yield, advancing a referenced state and leaving a copied one alone.',
  ['inputs', 'histories'], 'all generator states and bounds, all element types, all draw widths',
  'Boundary values of a 64- or 128-bit generator state are never hit by sampling.',
  [B + 'random.hpp', B + 'random_bits.hpp'], [('bits to mantissa mapping', B + 'random.hpp'), ('state update', B + 'random_bits.hpp')])
p('C21', 'Histograms count every sample exactly once',
  'After any sequence of samples the bin counts, below-range and above-range counts of a histogram sum to the number of samples. An integer sample is counted in the bin of its number, a floating-point sample between 0 and 1 in the bin nearest to its number of bins (the last bin taking the rest), and samples outside are counted below or above. No sample value, including NaN, infinities and integer extremes, accesses memory outside the histogram.',
  ['inputs', 'histories'], 'all sample values and types, bin counts, ranges; all sample sequences',
  'Values on bin borders and extreme values are isolated points of the input space.',
  [B + 'reduce.hpp'], [('scaling, clamping and counting', B + 'reduce.hpp')])
p('C22', 'Complex vector arithmetic follows the complex-number definitions',
  'Addition, subtraction, multiplication, division, conjugation, negation, squared magnitude and real/imaginary access of complex vectors give, lane by lane and as exact real-number formulas, the definitions of complex arithmetic, for complex-complex, complex-real and real-complex operands and every vector length.',
  ['inputs', 'configurations'], 'all operand values as real numbers (rounding excluded), lengths, instruction sets',
  'Sign and lane mistakes in shuffle-based complex kernels show only for particular operand mixes and lengths.',
  [S + 'complex.hpp', S + 'impl/basicoperators_complex.hpp', S + 'complex_type.hpp'], [('duplicate-multiply-addsub kernels', S + 'impl/basicoperators_complex.hpp')])
p('C23', 'Fractions and integer helper functions are arithmetically exact',
  'Rational-number values stay in lowest terms with positive denominator and their arithmetic and comparison are exact as long as no intermediate overflows. Greatest common divisor, least common multiple, power-of-two rounding, alignment, integer logarithm and bit-mask helpers equal their mathematical definition for every argument.',
  ['inputs'], 'all integer arguments within the stated overflow-free range',
  'Sign normalisation and extreme arguments are isolated cases.',
  [B + 'fraction.hpp', 'include/kfr/cometa/numeric.hpp', 'include/kfr/cometa.hpp'], [('normalisation by gcd', B + 'fraction.hpp')])
p('C24', 'Small containers behave like the standard sequence they stand for',
  'Inline vectors and small buffers keep, through any sequence of push, pop, resize, assign, copy, move, swap and clear operations, exactly the elements a standard sequence would hold, compare equal exactly when size and elements are equal, and never lose, duplicate or leak storage when switching between inline and heap storage.',
  ['inputs', 'histories'], 'all contents and operation sequences around the inline capacity',
  'Transitions between inline and heap storage under copy and move need specific sequences.',
  [B + 'inline_vector.hpp', B + 'small_buffer.hpp'], [('inline storage with heap fallback', B + 'small_buffer.hpp')])
p('C25', 'The C interface computes what the C++ library computes',
  'Every C entry point performs the operation of its C++ counterpart on the same data, with the same plan sizes, scratch sizes, formats and state handling, and reports invalid arguments through its return value and error text rather than through a crash.',
  ['inputs', 'histories'], 'all plans, sizes and data',
  'The C tests call each entry point once with one size.',
  ['src/capi/capi.cpp', 'include/kfr/capi.h'], [('opaque handle casts and try/catch wrappers', 'src/capi/capi.cpp')])
p('C26', 'Window functions are symmetric and bounded',
  'Symmetric window functions of any length are mirror-symmetric about their centre and equal their closed-form definition within rounding, periodic ones equal the symmetric window of one more sample without its last sample, and every value is finite.',
  ['inputs', 'configurations'], 'all window lengths and shape parameters',
  'Tests compare one length of each window against stored numbers.',
  [D + 'window.hpp', 'src/dsp/window.cpp'], [('closed form on a normalised ramp', D + 'window.hpp')])
p('C27', 'The shared DFT plan cache is safe under concurrent use',
  'Any number of threads may request plans at the same time; each receives a valid plan of the requested size and type, concurrent requests never corrupt the cache, and a plan in use stays valid after the cache is cleared.',
  ['schedules'], 'all interleavings of concurrent requests and clears',
  'Interleavings are not controllable in the existing tests, which never use the cache from two threads.',
  [F + 'cache.hpp'], [('mutex-protected map of shared plans', F + 'cache.hpp')])
p('C28', 'Elementary functions meet their accuracy bounds',
  'Sine, cosine, tangent, exponential, logarithm, power, hyperbolic, inverse trigonometric and gamma functions agree with the mathematical function within a few units in the last place over the whole domain, on every instruction set, with the IEEE special values where defined.',
  ['inputs', 'configurations'], 'all float and double arguments',
  'Tests sample some thousand arguments at tolerance.',
  ['include/kfr/math'], [('range reduction and minimax polynomials', 'include/kfr/math/impl')])
p('C29', 'Filter design functions produce stable filters with the requested response',
  'Designed IIR filters have all poles inside the unit circle and meet the gain at the design frequencies, and designed FIR filters are symmetric with unit gain where documented, for every order, frequency, ripple and sampling rate inside the documented domain.',
  ['inputs', 'configurations'], 'all orders, frequencies, ripple and gain parameters',
  'Tests compare a handful of designs with stored coefficients.',
  [D + 'iir_design.hpp', D + 'biquad_design.hpp', D + 'fir_design.hpp'], [('pole-zero placement and bilinear transform', D + 'iir_design.hpp')])
p('C30', 'Audio files written by the library read back to the same samples',
  'Writing samples to an audio or raw file in any supported sample format and reading them back gives the same samples (exactly when the format is wide enough), channel count and length, and reading never returns more samples than the file holds.',
  ['inputs', 'fault_sequences'], 'all sample data, formats, channel counts and read block sizes; short reads and truncated files',
  'Tests decode one or two bundled files.',
  ['include/kfr/io/audiofile.hpp', 'include/kfr/io/file.hpp'], [('codec wrappers over buffered readers and writers', 'include/kfr/io')])
p('C31', 'Loudness metering follows the broadcast recommendation',
  'Momentary, short-term, integrated loudness and loudness range equal the gated energy formulas of the recommendation for every signal, channel layout and packet split.',
  ['inputs', 'histories'], 'all signals, packet splits and channel layouts',
  'Tests need reference recordings; a few tones are used.',
  [D + 'ebu.hpp'], [('gated block energies', D + 'ebu.hpp')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
