CORE = 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real code, discharged by Z3'
TB = ' Trusted: clang-18 (C++ to IR), the kvc VC generator with its intrinsic models, Z3.'
NOTES = {
    'C01': ('proof', CORE, 'Every listed operation, element type and vector length is proved for all inputs on each instruction set (lane postconditions over bit-vectors).' + TB),
    'C02': ('proof', CORE, 'Every listed operation on f32/f64 is proved per lane for all inputs (IEEE-754 SMT theory for roundings; arithmetic operators uninterpreted). NaN operands excluded for min/max/rounding.' + TB),
    'C03': ('proof', CORE, 'Every listed shuffle, element type and length is proved for all lane values on each instruction set (exact symbolic lane tracking); scalar bit/digit reversal for every index.' + TB),
    'C04': ('proof', CORE, 'Every output lane is proved to be a min/max expression of the inputs (Z3) and the extracted network to sort all 2^N 0-1 inputs (zero-one principle), N = 4..32, all element types and instruction sets. No NaNs.' + TB),
    'C07': ('proof', CORE, 'process() for symbolic shapes, start and size (any number of iterations, loops cut at inferred invariants): 1-D whole function, 1-5-D row evaluation and 2-4-D outer loops against the row contract; source and destination are abstract expressions under contract. 3/4-D outer loops in the quick tier for the explicit-range case only.' + TB),
    'C08': ('proof', CORE, 'Each listed view over abstract source expressions: position map, shape, in-bounds evaluation, for all sizes and positions; reshape for fixed shapes only; chunk widths 1, 2, 4, 8.' + TB),
    'C05': ('proof', CORE, 'Horizontal reductions for every listed type and length, and the initial state, every chunk step and the final step of the expression reductions, are proved for all element values on each instruction set; with the evaluation contract of C07 this covers every length. Floating-point sums and products as exact reals; no NaNs for min/max.' + TB),
    'C06': ('proof', CORE, 'convert_sample for all 49 format pairs proved equal to scale-clamp-round for every sample on three instruction sets; convert (compile-time and run-time formats), interleave and deinterleave proved for any channel count and length (loops cut at inferred invariants). i24 buffers and container overloads only bounded; i8/i16/i24 round trips by exhaustive execution.' + TB),
    'C22': ('proof', CORE, 'Every listed operation, operand form (complex, real, scalar on either side), precision and vector length proved equal to the exact real formula on each instruction set. Rounding is not modelled; scalar std::complex arithmetic is outside the repository.' + TB),
    'C23': ('proof', CORE, 'fraction construction and arithmetic proved equal to the reduced exact quotient (Euclid loop with a ghost gcd invariant, any number of iterations), comparisons and conversions for operands below 2^31; gcd/lcm for 32/64-bit types; power-of-two, logarithm, alignment and divisibility helpers for every value of all eight integer types. Products and quotients uninterpreted with ground facts; gcd axioms assumed.' + TB),
    'C11': ('proof', CORE, 'ringbuf_read, ringbuf_write, ringbuf_step and the vector and single-sample forms proved for any size, cursor and transfer length (also longer than the buffer): fragments are checked against the contract of the element copy, which is proved by loop invariant. Fixed-size and owning univectors bounded. Sizes below 2^31; remainder facts assumed.' + TB),
    'C12': ('proof', CORE, 'one chunk of the FIR expression for any tap count and cursor: each tap meets its sample exactly once (contract of dotproduct from C05), delay line and cursor; short FIR chunks for all taps, states and inputs as exact polynomials; whole streams in random blocks are run (bounded)' + TB),
    'C13': ('proof', CORE, 'chunks, look-ahead, flush and state hand-over of cascades of 1, 2, 3, 4, 8 sections as exact polynomials for every input and state (coefficients symbolic in small chunks, sampled in larger ones); direct recurrence as an obligation on the real chunk; whole streams in random blocks are run (bounded)' + TB),
    'C14': ('proof', CORE, 'moving_sum: each chunk proved for every length (1 to 2^31) and cursor against a ghost delay line, plus exact sums at lengths 1-9; delay: lengths 1-17 at every cursor, every content, block sizes 1-16, proved to equal the shifted stream. Whole streams natively (bounded).' + TB),
    'C20': ('proof', CORE, 'Generator step, byte extraction for 26 request sizes, uniform and ranged values (all integer and floating-point types, direct and as expressions) proved equal to their exact definition for every state and every pair of bounds on each instruction set; rounding of floating-point ranges against their upper bound only natively (bounded).' + TB),
    'C21': ('proof', CORE, 'put() proved to count every sample once in its slot: integer types for any number of bins (symbolic array), floating point in IEEE semantics including NaN and infinities for fixed bin counts; whole streams natively (bounded).' + TB),
    'C24': ('proof', CORE, 'Every small_buffer operation proved against an abstract sequence with ownership of heap storage (any heap size, every inline/heap transition), so the data-structure invariant holds through every history; every inline_vector operation at every size for small capacities.' + TB),
    'C16': ('proof', CORE, 'For each size in the proved set (1 to 64 and larger ones; many more in the thorough tier) the plan constructor and execute run on symbolic inputs: the transfer matrix equals the DFT matrix for every input, forward and inverse, in and out of place, with uninitialised scratch, repeated on one plan, with memory safety. Rounding error and sizes to 2^17 only by native runs (bounded).' + TB),
    'C17': ('proof', CORE, 'Real transforms (both formats, in and out of place), DCT types 2/3 and multi-dimensional complex and real plans (static and dynamic) of each listed size or shape proved equal to the defining matrix for every input, including scratch independence and memory safety. Rounding error and further sizes by native runs (bounded).' + TB),
    'C18': ('proof', CORE, 'One-shot convolve, correlate and autocorrelate for each listed pair of lengths, and convolve_filter streams (block size, impulse response length, block split, reset, new data), proved equal to the defining sum with every sample and every tap symbolic (exact bilinear forms). Other lengths and splits and rounding by native runs (bounded).' + TB),
    'C26': ('proof', CORE, 'The ramp every window is built on (window_linspace) is proved for every size of at least two and every index (exact real arithmetic); the element function of every window except Kaiser is proved equal to its closed form with sin, cos and exp as assumed contracts. All 17 windows, f32/f64, parameters and forms are additionally compared natively with the closed forms (bounded).' + TB),
    'C09': ('proof', CORE, 'Shape and index functions (row-major flat index and its inverse, strides, broadcasting, dimension tests, successor) of ranks 1 to 4 are proved for all values inside 64-bit range; walks and broadcasting are additionally compared natively with NumPy (bounded).' + TB),
    'C10': ('proof', CORE, 'Rank 1 slicing is proved for all sizes, starts and stops for each step (1, 2, 3 and more, both signs): count, offset, stride and bounds. Reads and writes through views and matrix transposition are proved for all element values for each listed shape and layout. Slices of ranks 2 to 4, copies, reshaping and storage lifetime are native runs against NumPy (bounded).' + TB),
    'C15': ('proof', CORE, 'For each listed pair of factors, filter depth, output position (every residue, and far positions), block size and input count, process() and skip() are proved against the position arithmetic for every history, sample and impulse response: outputs, consumed count, positions and the history left, which is the precondition of the next block. Size queries are proved for every position and size with lldiv under its standard contract. Filter design, complex samples and long streams are native runs (bounded). Push conversion with decimation is a known finding.' + TB),
}
NA = {}
