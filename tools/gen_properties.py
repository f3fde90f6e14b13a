#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the long texts stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe or [], "hook_needed": None},
    })


F = "src/neo/"

prop("C01", "Power-of-two complex FFT plans compute the DFT",
     "For every supported power-of-two size (including size 1) and every input, the forward and backward transform of every "
     "radix-2 complex FFT (the default plan and all its kernels, the Stockham variants, the split real/imaginary plan, the "
     "experimental plan over interleaved parts, and the kernels on SIMD batches) equals the unnormalised discrete Fourier transform X[k] = sum x[n]*exp(-+2*pi*i*n*k/N) up to "
     "floating-point rounding. This holds in place, out of place and on strided views, for every supported complex type, and "
     "touches only the elements of the given views; an order above the default plan's maximum is rejected with an exception.",
     ["inputs", "configurations"],
     "all orders, both directions, all plans/kernels, all element types and layouts, all input vectors",
     "The repository's FFT tests (not even built in this environment: they need mdspan) only check forward-then-backward round "
     "trips of random noise for orders 2..14, which a conjugated or permuted transform passes too.",
     [F + "fft/fft.hpp", F + "fft/reference/c2c_dit2_plan.hpp", F + "fft/reference/kernel/c2c_dit2.hpp",
      F + "fft/reference/c2c_stockham_dif2_plan.hpp", F + "fft/reference/bitrevorder.hpp", F + "fft/twiddle.hpp",
      F + "fft/split_fft.hpp", F + "fft/fallback/fallback_split_fft_plan.hpp", F + "fft/order.hpp",
      F + "fft/experimental/rfft.hpp"],
     [("bit-reversal permutation", F + "fft/reference/bitrevorder.hpp"),
      ("twiddle tables per direction", F + "fft/twiddle.hpp"),
      ("butterfly stages", F + "fft/reference/kernel/c2c_dit2.hpp")],
     observe=["output views of fft()/ifft()"])

prop("C02", "Radix-3/4/5/8 FFT plans compute the DFT",
     "For every supported size 3^k, 4^k, 5^k and 8^k and every input, the forward and backward transforms of the higher-radix "
     "complex FFT plans (digit-reversal and Stockham variants) equal the unnormalised discrete Fourier transform of the matching "
     "direction up to floating-point rounding, on contiguous and strided views, touching only the elements of the view.",
     ["inputs", "configurations"],
     "all orders, both directions, all higher-radix plans, element types, layouts and input vectors",
     "Existing tests only do forward-then-backward round trips on random noise, and are not part of the buildable baseline.",
     [F + "fft/reference/c2c_dif3_plan.hpp", F + "fft/reference/c2c_dif5_plan.hpp", F + "fft/reference/c2c_dit4_plan.hpp",
      F + "fft/reference/c2c_stockham_dif3_plan.hpp", F + "fft/reference/c2c_stockham_dif4_plan.hpp",
      F + "fft/reference/c2c_stockham_dif5_plan.hpp", F + "fft/reference/c2c_stockham_dif8_plan.hpp",
      F + "fft/reference/c2c_stockham_dit4_plan.hpp", F + "fft/reference/digitrevorder.hpp"],
     [("digit reversal", F + "fft/reference/digitrevorder.hpp"), ("radix butterflies", F + "fft/reference/")],
     observe=["output views of plan(x, direction)"])

prop("C03", "Real FFT and its inverse match the DFT of the real signal",
     "For every power-of-two size N (including 1) and every real input, the real-input transform yields exactly the N/2+1 "
     "non-redundant DFT coefficients and leaves the rest of a larger output untouched; the inverse transform, given N/2+1 (or more) "
     "coefficients, yields N times the real signal they describe. Splitting the spectrum of one packed complex signal "
     "recovers the two individual real spectra. The experimental in-place real plan (sizes 2 and up) leaves the same coefficients in "
     "packed order (DC, Nyquist, then real and imaginary parts) and its inverse turns them into N/2 times the signal.",
     ["inputs", "configurations"],
     "all orders, all real inputs, all half-spectra, both float types and complex types, exact-size and oversized buffers",
     "Tests use random round trips for orders 1..14; they never look at single coefficients, nor at the packed-spectrum split for all sizes.",
     [F + "fft/rfft.hpp", F + "fft/fallback/fallback_rfft_plan.hpp", F + "fft/experimental/rfft.hpp"],
     [("conjugate-symmetric fill", F + "fft/fallback/fallback_rfft_plan.hpp"), ("rfft_deinterleave", F + "fft/rfft.hpp")],
     observe=["output of rfft/irfft/rfft_deinterleave"])

prop("C04", "Arbitrary-length DFT matches the definition for every length",
     "For every length n >= 1 (prime, composite or power of two) and every complex input, the arbitrary-length DFT plan and the "
     "direct DFT produce the unnormalised discrete Fourier transform in the requested direction up to rounding, and the inverse of "
     "the forward transform returns n times the input.",
     ["inputs", "configurations"],
     "all lengths, both directions, all inputs, in place and out of place",
     "Tests cover a few lengths with random data and round trips only.",
     [F + "fft/dft.hpp", F + "fft/fallback/fallback_dft_plan.hpp"],
     [("chirp-z convolution", F + "fft/fallback/fallback_dft_plan.hpp"), ("direct sum", F + "fft/dft.hpp")],
     observe=["output of dft/idft"])

prop("C05", "Transform plans are reusable and history-independent",
     "Whatever sequence of transforms a plan has executed before (any mix of forward and backward calls and inputs), its next "
     "transform gives bit-for-bit the result a freshly constructed plan gives for the same input. Out-of-place transforms never modify "
     "their input, and copies of a plan are independent of the original.",
     ["histories", "inputs"],
     "all sequences of calls on one plan object up to a depth, for every plan type",
     "Every test constructs a plan and uses it for one or two calls; leftover state of scratch buffers after other call orders is never compared.",
     [F + "fft/fft.hpp", F + "fft/rfft.hpp", F + "fft/dft.hpp", F + "fft/stft.hpp", F + "fft/dct.hpp",
      F + "fft/fallback/fallback_dft_plan.hpp", F + "fft/fallback/fallback_rfft_plan.hpp"],
     [("scratch buffers cleared or overwritten on each call", F + "fft/fallback/fallback_dft_plan.hpp")],
     state=[("scratch buffers", "per-plan work areas", F + "fft/fallback/")],
     observe=["output of the k-th call"])

prop("C06", "Partitioned streaming convolution equals linear convolution",
     "For every impulse response, partition count, power-of-two block size of at least two and every sequence of input blocks, the concatenated "
     "output of the uniformly partitioned convolvers (overlap-save, overlap-add, their split-complex forms, and the arbitrary-chunk one fed whole blocks) equals the direct "
     "linear convolution of the concatenated input with the impulse response, block by block and with no added latency.",
     ["inputs", "histories", "configurations"],
     "all impulse responses, partition counts, block sizes, and all block sequences of any length",
     "Tests feed one noise signal through identity filters of a few sizes; they never compare with a convolution over enough blocks for the delay line to wrap.",
     [F + "convolution/uniform_partitioned_convolver.hpp", F + "convolution/dense_convolver.hpp",
      F + "convolution/overlap_add.hpp", F + "convolution/overlap_save.hpp", F + "convolution/fdl_index.hpp",
      F + "convolution/dense_fdl.hpp", F + "convolution/dense_filter.hpp", F + "convolution/uniform_partition.hpp",
      F + "convolution/overlap_add_convolver.hpp"],
     [("frequency-domain delay line ring", F + "convolution/fdl_index.hpp"), ("overlap handling", F + "convolution/overlap_add.hpp")],
     state=[("delay line", "spectra of the last P input blocks", F + "convolution/dense_fdl.hpp"),
            ("overlap", "tail of the previous output block", F + "convolution/overlap_add.hpp")],
     observe=["the in/out block after each call"])

prop("C07", "Streaming convolution output does not depend on how input is chunked",
     "For the arbitrary-chunk overlap-add convolver with any power-of-two block size and any number of partitions, feeding the same signal in any sequence of chunk sizes (each at least one block "
     "long) produces sample for sample the same output as the direct linear convolution with the impulse response, with no added latency.",
     ["inputs", "histories", "configurations"],
     "all chunkings of all signals, all impulse responses and block sizes",
     "The test only feeds whole blocks; a partially filled block carried from call to call never occurs.",
     [F + "convolution/overlap_add_convolver.hpp", F + "convolution/dense_convolver.hpp"],
     [("input position and partial blocks", F + "convolution/overlap_add_convolver.hpp")],
     state=[("input position", "samples of the current block already received", F + "convolution/overlap_add_convolver.hpp")],
     observe=["the in/out chunk after each call"])

prop("C08", "Installing a filter fully resets a convolver",
     "Whatever a convolver has processed before and whichever filter it held, after a new filter is installed its output is the same as "
     "that of a newly constructed convolver with that filter: nothing of the previous filter, delay line, overlap or position is audible, "
     "also when block size or partition count change.",
     ["histories", "configurations"],
     "all histories of filter installations and processed blocks up to a depth, for every convolver type",
     "No test installs a second filter.",
     [F + "convolution/uniform_partitioned_convolver.hpp", F + "convolution/overlap_add_convolver.hpp", F + "convolution/sparse_filter.hpp",
      F + "convolution/dense_filter.hpp"],
     [("re-creation of delay line, overlap, index", F + "convolution/uniform_partitioned_convolver.hpp")],
     observe=["output after re-installation"])

prop("C09", "Sparse convolution equals dense convolution of the masked filter",
     "For every filter, every choice of kept coefficients and every block sequence, the sparse partitioned convolver produces the output of the "
     "dense partitioned convolver whose filter has all other coefficients set to zero; keeping every coefficient reproduces the dense result.",
     ["inputs", "histories", "configurations"],
     "all keep/drop masks, filters and block sequences",
     "Tests keep everything or a fixed subset and compare a single scenario.",
     [F + "convolution/sparse_convolver.hpp", F + "convolution/sparse_filter.hpp", F + "container/csr_matrix.hpp", F + "algorithm/multiply_add.hpp"],
     [("row-wise sparse multiply-accumulate", F + "algorithm/multiply_add.hpp")],
     observe=["the in/out block after each call"])

prop("C10", "Overlap-add and overlap-save block processors filter streams correctly",
     "For every block size and every filter length, multiplying each presented spectrum by the filter's spectrum inside the overlap-add or "
     "overlap-save processor turns the stream of blocks into the linear convolution of the stream with the filter. An identity callback "
     "reproduces the input with no latency, and the reported block, filter and transform sizes describe the transform that is used.",
     ["inputs", "histories", "configurations"],
     "all block sizes and filter lengths (not only equal powers of two), all block sequences",
     "Tests use an identity callback with matching sizes; filters longer than a block and sizes that are not powers of two never run with a real filter.",
     [F + "convolution/overlap_add.hpp", F + "convolution/overlap_save.hpp"],
     [("overlap buffer", F + "convolution/overlap_add.hpp"), ("sliding window", F + "convolution/overlap_save.hpp")],
     state=[("overlap/window", "history of the stream", F + "convolution/overlap_add.hpp")],
     observe=["the in/out block after each call"])

prop("C11", "Delay-line indexing pairs every filter segment with the right block",
     "For every number of segments and after any number of steps and resets, one step stores the newest block in exactly one slot and then pairs every slot "
     "exactly once with the filter segment whose index is the age of the block in that slot (in steps); a reset starts over at the first slot. "
     "Every signed or unsigned index type wide enough for the number of segments behaves the same.",
     ["histories", "configurations"],
     "all segment counts, all step/reset sequences, all index types",
     "Tests look at one or two fixed sequences for a few segment counts.",
     [F + "convolution/fdl_index.hpp"],
     [("modular index arithmetic", F + "convolution/fdl_index.hpp")],
     state=[("write position", "slot receiving the next block", F + "convolution/fdl_index.hpp")],
     observe=["arguments of the two callbacks"])

prop("C12", "One-shot convolution equals the convolution sum for all sizes",
     "For every pair of non-empty operands, in either order of lengths, direct and FFT-based one-shot convolution return the full linear "
     "convolution of length n+m-1 up to rounding, are commutative, and leave their operands unchanged; FFT convolution with an empty "
     "operand returns an empty result, and a convolver object can be reused.",
     ["inputs", "configurations", "histories"],
     "all operand sizes and values, both float types, repeated use",
     "Tests check a handful of hand-computed vectors.",
     [F + "convolution/direct_convolve.hpp", F + "convolution/fft_convolver.hpp", F + "convolution/mode.hpp"],
     [("zero padding to n+m-1", F + "convolution/fft_convolver.hpp"), ("index bounds of the direct sum", F + "convolution/direct_convolve.hpp")],
     observe=["returned vector"])

prop("C13", "STFT and uniform partitioning split signals without loss",
     "For every non-empty signal, channel count, frame, transform and overlap size, the short-time transform returns for each "
     "channel the frames at multiples of frame size minus overlap, each windowed over the frame, zero-padded to the "
     "transform size and Fourier-transformed, and enough frames to cover every sample. Uniform partitioning returns the zero-padded spectra of consecutive blocks of "
     "the impulse response for every non-empty response, including lengths that are not a multiple of the block size.",
     ["inputs", "configurations"],
     "all signal lengths, channel counts and option combinations",
     "Tests check shapes and a few fixed sizes.",
     [F + "fft/stft.hpp", F + "convolution/uniform_partition.hpp", F + "math/windowing.hpp", F + "math/idiv.hpp"],
     [("frame count and frame offsets", F + "fft/stft.hpp")],
     observe=["returned spectra"])

prop("C14", "Sparse matrix behaves like a dense matrix",
     "After any sequence of element insertions (in any order, including overwriting), or construction from a dense matrix with any filter predicate, "
     "reading any position of the sparse matrix gives what a dense matrix initialised with zeros would give; the compressed containers stay consistent "
     "(sorted columns, monotone row offsets). Multiply-accumulate with a sparse row gives the dense result for every output element, in place and out of place.",
     ["histories", "inputs", "configurations"],
     "all insertion sequences up to a depth over all positions, all construction masks, all matrix shapes",
     "Tests insert two or three elements in one order.",
     [F + "container/csr_matrix.hpp", F + "algorithm/multiply_add.hpp"],
     [("row offsets and sorted column indices", F + "container/csr_matrix.hpp")],
     state=[("row offsets/columns/values", "compressed sparse row storage", F + "container/csr_matrix.hpp")],
     observe=["element access, containers, multiply_add output"])

prop("C15", "Element-wise operations touch every element exactly once and nothing else",
     "For every extent (including empty and sizes not a multiple of the SIMD width), layout, element type and operand aliasing, element-wise add, multiply, "
     "multiply-add (real, complex and split-complex), scale, fill and copy compute the mathematical result for each element of the output, and "
     "write no element outside the output view. Vectorised and scalar paths agree up to rounding.",
     ["inputs", "configurations"],
     "all extents, ranks 1 and 2, layouts, alignments, aliasing patterns, element types and instruction-set configurations",
     "Tests use a few sizes with contiguous data on one instruction set.",
     [F + "algorithm/add.hpp", F + "algorithm/multiply.hpp", F + "algorithm/multiply_add.hpp", F + "algorithm/scale.hpp",
      F + "algorithm/fill.hpp", F + "algorithm/copy.hpp", F + "algorithm/backend/linalg_binary_op.hpp", F + "algorithm/backend/linalg_unary_op.hpp"],
     [("SIMD main loop and scalar remainder", F + "algorithm/multiply_add.hpp")],
     observe=["output view and the memory around it"])

prop("C16", "Statistics and normalisation compute their definitions for every shape",
     "For every non-empty vector or matrix in any layout, mean, variance (population), standard deviation, mean squared error and root mean "
     "squared error (of magnitudes for complex values) equal their textbook definitions up to rounding; the mean of nothing and the variance of fewer than two elements are reported as absent. Peak normalisation makes the "
     "largest magnitude one, energy normalisation makes the energy one, and impulse normalisation scales all channels by the one factor that gives the "
     "strongest channel unit energy; silent input stays silent and finite. (For magnitudes whose squares and reciprocals neither overflow nor underflow.)",
     ["inputs", "configurations"],
     "all shapes, layouts and values",
     "Tests use fixed vectors of one or two sizes.",
     [F + "algorithm/mean.hpp", F + "algorithm/variance.hpp", F + "algorithm/standard_deviation.hpp", F + "algorithm/mean_squared_error.hpp",
      F + "algorithm/root_mean_squared_error.hpp", F + "algorithm/normalize_energy.hpp", F + "algorithm/normalize_peak.hpp",
      F + "convolution/normalize_impulse.hpp"],
     [("accumulation over all elements of both ranks", F + "algorithm/")],
     observe=["return values, normalised object"])

prop("C17", "Scalar fixed-point arithmetic saturates and never wraps",
     "For every pair of 8-bit and 16-bit fixed-point operands and every number of fractional bits, addition, subtraction, negation and multiplication give the "
     "exact result rounded toward minus infinity and clamped to the representable range, and comparisons order values numerically. Conversion from floating point truncates toward "
     "zero and clamps for every finite input (a double may be rounded to the nearest float first), conversion back is exact, and complex fixed-point operations act on the correct real and imaginary "
     "parts: sums and differences saturate per component; the 16-bit complex product is scaled down by four, each partial product being rounded toward minus infinity before they are combined.",
     ["inputs", "configurations"],
     "all operand pairs, all fractional bit counts, all finite floats",
     "The scalar fixed-point tests check a few literal values.",
     [F + "fixed_point/fixed_point.hpp", F + "fixed_point/complex.hpp"],
     [("saturating clamp", F + "fixed_point/fixed_point.hpp")],
     observe=["underlying values of results"])

prop("C18", "Vectorised fixed-point arithmetic agrees with scalar arithmetic",
     "For every length and every operand value, the array forms of fixed-point addition and subtraction give bit-for-bit the scalar results, and multiplication "
     "gives the scalar result to within one least significant bit (exactly, except that the 15-bit-fraction SIMD product may round to nearest), saturating instead of wrapping. The SIMD "
     "batch types give these results in every lane and load, store and broadcast the right lanes, and no element beyond the output is written.",
     ["inputs", "configurations"],
     "all operand values, all lengths around the SIMD width, all fractional bit counts and instruction sets",
     "Tests use a few values such as 0.5 in every lane; sign combinations and extreme values are never enumerated.",
     [F + "fixed_point/algorithm.hpp", F + "fixed_point/simd.hpp", F + "simd/sse2.hpp", F + "simd/avx.hpp", F + "simd/avx512.hpp"],
     [("SIMD kernels and scalar remainder loop", F + "fixed_point/simd.hpp")],
     observe=["output span, batch lanes"])

prop("C19", "SIMD batch types behave lane by lane like scalars",
     "For every floating-point batch type of every instruction set, loading, storing, broadcasting, addition, subtraction and multiplication act on each lane independently exactly like "
     "the scalar operation on that lane (half precision rounding like the half-precision scalar), for any unaligned address and touching exactly the batch's elements.",
     ["inputs", "configurations"],
     "all lanes, all pairs of values from a boundary alphabet (all half-precision values), all alignments and instruction sets",
     "The stable tests broadcast one or two values, so lane mix-ups cannot be seen.",
     [F + "simd/sse2.hpp", F + "simd/avx.hpp", F + "simd/avx512.hpp", F + "simd/native.hpp"],
     [("intrinsics per operation", F + "simd/")],
     observe=["batch lanes after store"])

prop("C20", "Integer helpers are exact for every value of every width",
     "For every integer type and every value in the domain, rounding up to a power of two, integer base-2 logarithm, integer powers, transform order and size, "
     "ceiling division and parity tests return the exact mathematical result, and the portable fallback agrees with the built-in version; bit casts keep every bit. The domain: results that are representable; "
     "positive arguments of the logarithm; non-negative exponents; for ceiling division a non-negative dividend, a positive divisor and a representable sum of the two.",
     ["inputs", "configurations"],
     "all values of 8/16-bit types, all boundary neighbourhoods of wider types",
     "Tests list a dozen values per function.",
     [F + "bit/bit_ceil.hpp", F + "bit/bit_log2.hpp", F + "math/ipow.hpp", F + "math/idiv.hpp", F + "math/is_even.hpp", F + "math/is_odd.hpp",
      F + "fft/order.hpp", F + "bit/bit_cast.hpp"],
     [("bit tricks", F + "bit/")],
     observe=["return values"])

prop("C21", "Complex scalar type obeys complex arithmetic",
     "For every pair of values, the library's own complex type gives the mathematical sum, difference, product, quotient, negation, conjugate and magnitude in "
     "both plain and compound-assignment form (also with real right-hand sides and when operand and target alias), and the generic accessors for real part, imaginary part, conjugate, magnitude, "
     "polar form and logarithm agree with the standard library for every supported type (imaginary part and conjugate: of complex types). Magnitudes are such that their squares neither overflow nor underflow.",
     ["inputs", "configurations"],
     "all operand pairs over a value grid, all element types, aliasing of left and right operand",
     "Tests evaluate a few literals per operator.",
     [F + "complex/scalar_complex.hpp", F + "math/abs.hpp", F + "math/conj.hpp", F + "math/real.hpp", F + "math/imag.hpp", F + "math/polar.hpp", F + "math/log2.hpp"],
     [("operator definitions", F + "complex/scalar_complex.hpp")],
     observe=["results of operators"])

prop("C22", "Compressed storage reproduces values within one quantisation step",
     "Every value written to the compressed delay line reads back within half a quantisation step when it lies in [-1, 1] and saturates to the nearest "
     "end of the range otherwise, in the row it was written to and no other, for every insertion sequence; elements never written read as zero. The decompressing view maps every stored "
     "integer to its exact fraction of full scale, also through offsets and sub-views.",
     ["inputs", "histories", "configurations"],
     "all 8/16-bit codes, all values on a grid finer than the step, all insertion sequences up to a depth",
     "Tests write a few constants.",
     [F + "convolution/compressed_fdl.hpp", F + "container/compressed_accessor.hpp"],
     [("scaling by the integer maximum", F + "container/compressed_accessor.hpp")],
     observe=["element access of rows"])

prop("C23", "Audio unit and window functions match their formulas everywhere",
     "Amplitude-to-decibel conversion equals 20*log10 of the gain clamped from below to the given floor (floor for non-positive gain; the fast variant within 0.005 dB "
     "for normal floats), mel/hertz conversions are the standard formula, mutually inverse and monotone, A-weighting matches the IEC formula, and mel and FFT frequency "
     "tables (entry i of a real-FFT frequency table of n entries is i times the sample rate divided by n) and the rectangular, Hann and Hamming windows match their definitions at every index for every size.",
     ["inputs", "configurations"],
     "all exponents and mantissa grids of float inputs, all table sizes and indices",
     "Tests check a handful of points.",
     [F + "unit/decibel.hpp", F + "unit/mel.hpp", F + "math/a_weighting.hpp", F + "math/windowing.hpp", F + "math/fast_math.hpp", F + "fft/rfftfreq.hpp"],
     [("closed formulas", F + "unit/")],
     observe=["return values"])

prop("C24", "DCT plan computes the type-2 discrete cosine transform",
     "For every power-of-two size (including 1) and every real input, the in-place DCT plan returns y[k] = 2*sum x[n]*cos(pi*k*(2n+1)/(2N)) up to rounding, "
     "touches only the given elements, and repeated use of one plan gives the same results as fresh plans.",
     ["inputs", "configurations", "histories"],
     "all orders and inputs, repeated use",
     "Tests compare a few fixed vectors.",
     [F + "fft/dct.hpp"],
     [("even/odd reordering and quarter-wave twiddle", F + "fft/dct.hpp")],
     observe=["transformed view"])

prop("C25", "Comparison predicates accept exactly the objects that match",
     "Approximate comparison of two objects is true exactly when every pair of corresponding elements differs by no more than the tolerance, and "
     "the general matcher is true exactly when the predicate holds for every pair; empty objects always match, "
     "and a single differing element anywhere (either component for complex values) is detected in every shape, layout and mixed operand types. Exact floating-point equality agrees with the built-in comparison.",
     ["inputs", "configurations"],
     "all shapes, all positions of a differing element, all layouts",
     "Tests compare a few equal and unequal pairs.",
     [F + "algorithm/allclose.hpp", F + "algorithm/allmatch.hpp", F + "math/float_equality.hpp"],
     [("loops over both ranks", F + "algorithm/allmatch.hpp")],
     observe=["return value"])

E = "extra/"

prop("C26", "The plugin's frame adapter is transparent to the host's buffer sizes",
     "For every frame size, hop and channel count, and for every sequence of host buffer sizes up to the announced maximum (including empty buffers, in place or with "
     "separate output), the overlap-add adapter hands its frame processor exactly the successive frames of the input stream (frame t starts at sample t*hop, each once and "
     "in order, weighted with a window whose overlapping copies add up to one) and plays the overlap-added processed frames delayed by frame-1 samples, starting from silence: "
     "how the host cuts the stream into buffers makes no difference, and a processor that leaves frames alone gives back the input at unity gain. prepare() and reset() start a fresh stream that contains nothing of "
     "earlier audio or uninitialised memory; reset() also reaches the frame processor.",
     ["schedules", "histories", "configurations"],
     "all sequences of host buffer sizes, all frame/hop/maximum combinations, prepare/reset at every point",
     "The plugin has no tests, and the buffering only goes wrong for particular sequences of buffer sizes.",
     [E + "plugin/src/dsp/ConstantOverlapAdd.hpp"],
     [("left-over input and output cursor", E + "plugin/src/dsp/ConstantOverlapAdd.hpp")],
     state=[("_unusedInputCount", "input samples waiting for a full frame", E + "plugin/src/dsp/ConstantOverlapAdd.hpp"),
            ("_outputOffset", "where the next frame is added to the output", E + "plugin/src/dsp/ConstantOverlapAdd.hpp")],
     observe=["frames given to processFrame", "samples returned by process"])

prop("C27", "The plugin's convolution engines filter every channel with its own impulse",
     "For every host buffer schedule, block size (at least two), bus width and impulse response, the plugin's dense engine outputs each channel's linear convolution with the energy-normalised impulse "
     "response of that channel (the last one if the file has fewer channels than the bus; unchanged audio if no file was loaded), delayed by frame-1 samples. A file that cannot be read leaves the loaded response in "
     "place; loading, prepare() and reset() restart the convolution without any earlier audio. The offline dense renderer returns the convolution cut to the signal length for every length, and the sparse renderer "
     "the result of keeping exactly the partition coefficients whose A-weighted level relative to the channel's loudest coefficient exceeds the threshold (the lowest bins always favoured). The block engine "
     "filters whole blocks without latency or normalisation, passes buffers of any other size through, is transparent after reset() until prepared or loaded again, and renders the same file identically every time.",
     ["schedules", "histories", "inputs", "configurations"],
     "all words over process/load/prepare/reset, all shapes, all thresholds between coefficient levels",
     "The plugin has no tests.",
     [E + "plugin/src/dsp/DenseConvolution.cpp", E + "plugin/src/dsp/DenseConvolution.hpp", E + "plugin/src/dsp/AudioBuffer.hpp", E + "plugin/src/dsp/AudioBuffer.cpp",
      E + "plugin/src/dsp/Convolution.hpp"],
     [("installing the impulse response", E + "plugin/src/dsp/DenseConvolution.cpp"), ("threshold of the sparse renderer", E + "plugin/src/dsp/DenseConvolution.cpp")],
     observe=["samples returned by process", "rendered buffers"])

prop("C28", "The Python module computes NumPy-compatible results for every array it accepts",
     "Every function of the Python module either raises or returns the documented result for every array NumPy can hand it: fft and ifft of 1-D complex arrays of any stride (gaps, reversed, broadcast, fields of structured "
     "arrays) equal the DFT of the array cropped or zero-padded to n elements with the requested norm (power-of-two n; anything else raises), the convolutions equal the convolution sum and reject empty or multi-dimensional operands "
     "and unsupported modes, element-wise functions apply their formula to every element. The result has the dtype of the input, arrays and numbers of any other type are computed in double precision, the package's functions hand every argument (n, norm, mode, "
     "method, precision, spacing; positional, by name or by default) on as documented and reject unknown ones, inputs are never modified, results do not depend on earlier calls, no Python object is "
     "touched while the interpreter lock is released, and the lock is held again on return.",
     ["inputs", "configurations", "histories"],
     "all lengths, n, norms, dtypes, array layouts and dimensions up to the bounds",
     "The Python tests use contiguous arrays only, never pass n or norm, and are not part of this environment's build.",
     [E + "python/src/main.cpp", E + "python/src/neo/__init__.py", E + "python/src/neo/fft/__init__.py"],
     [("array to mdspan conversion", E + "python/src/main.cpp"), ("normalisation of transforms", E + "python/src/main.cpp")],
     observe=["returned arrays", "exceptions", "interpreter lock"])

prop("C29", "The command-line convolver writes the normalised convolution of its files",
     "For every pair of readable files with equal channel count and sample rate, the command-line tool exits with success and leaves, at the given path only, a 32-bit float file of the signal's length, channel count and "
     "rate that holds, channel by channel, the convolution of signal and filter scaled to a peak of one (silence stays silence; up to the precision of the convolver used last). A missing, truncated, empty or mismatching file, or "
     "a wrong number of arguments, ends with a failure status and writes nothing, and so does a medium that cannot be written to: success always means that the complete file is there; no file stays open.",
     ["inputs", "configurations", "fault_sequences"],
     "all lengths around multiples of the block size, channel counts and file faults",
     "The tool has no tests.",
     [E + "cli/src/convolver.cpp", E + "cli/src/wav.hpp"],
     [("block loop", E + "cli/src/convolver.cpp"), ("file loading", E + "cli/src/wav.hpp")],
     observe=["exit status", "written files"])

prop("C30", "The plugin's spectrum views and audio files keep every value in its place",
     "For every spectrogram, weighting and threshold, the plugin's power histogram counts each coefficient exactly once, in the bucket of its level relative to the loudest coefficient plus the weight of its own bin, the "
     "histogram image draws each bucket as a bar proportional to its count, and the spectrum image shows frame f and bin k at column f, row bins-1-k, black exactly if that weighted level reaches the threshold. Loading an audio "
     "file yields every channel, sample and the rate of the file (resampled only if the rate differs; nothing if it cannot be read), and writing one stores every sample of every channel with the given rate and bit depth "
     "and leaves nothing behind if the file or format is refused.",
     ["inputs", "configurations", "fault_sequences"],
     "all level assignments of small spectrograms, all weightings and thresholds, all channel counts, lengths and faults",
     "The plugin has no tests.",
     [E + "plugin/src/dsp/Spectrum.cpp", E + "plugin/src/dsp/AudioFile.cpp", E + "plugin/src/dsp/AudioBuffer.cpp"],
     [("weighted level of a bin", E + "plugin/src/dsp/Spectrum.cpp"), ("file streams", E + "plugin/src/dsp/AudioFile.cpp")],
     observe=["histogram", "pixels", "loaded buffers", "written files"])

prop("C31", "Plans, convolvers and processors are independent values",
     "Every transform plan, convolver and block processor is a self-contained value: a copy continues the stream on its own, a moved-to object takes it over, swapping and self-assignment change nothing else, and whatever "
     "one object does - interleaved with, inside a callback of, or on another thread than a second object - never changes what the second one computes. A convolver keeps its own copy of the filter it was given.",
     ["schedules", "histories", "configurations"],
     "all words of copies, moves, swaps and processing on two objects; all schedules of two threads up to a preemption bound",
     "No test copies a convolver, runs two objects at once, or uses a thread.",
     [F + "convolution/uniform_partitioned_convolver.hpp", F + "convolution/overlap_add_convolver.hpp", F + "convolution/overlap_add.hpp", F + "convolution/overlap_save.hpp",
      F + "convolution/dense_filter.hpp", F + "convolution/dense_fdl.hpp", F + "convolution/sparse_filter.hpp", F + "fft/fft.hpp", F + "fft/rfft.hpp", F + "fft/dct.hpp"],
     [("buffers owned by each object", F + "convolution/"), ("work buffers and tables owned by each plan", F + "fft/")],
     observe=["results of two objects compared with results of each alone"])

prop("C32", "Vendor-library backends behave like the portable plans and leak nothing",
     "Built with Intel IPP, Intel MKL or Apple Accelerate, the complex, split, real, arbitrary-length and DCT plans and the delegated scaling and multiply-add compute what the portable code promises (unnormalised DFT in both directions, IPP's "
     "orthonormal DCT) in place, out of place, for const, strided and larger buffers, obeying the calling contract of the library. Over every history of construction, move, assignment, use and destruction each library object is released "
     "exactly once, and a setup step that the library refuses is reported by an exception without leaking.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all small inputs, call variants and library layouts; all histories over two plans; a failure of each setup call",
     "The tests of these adapters are compiled only where the libraries are installed, and then use contiguous buffers, no assignment and no failure.",
     [F + "fft/backend/ipp.hpp", F + "fft/backend/mkl.hpp", F + "fft/backend/vdsp.hpp", F + "algorithm/backend/cblas.hpp", F + "algorithm/scale.hpp", F + "algorithm/multiply_add.hpp"],
     [("plans over IPP", F + "fft/backend/ipp.hpp"), ("plan over MKL", F + "fft/backend/mkl.hpp"), ("plans over vDSP", F + "fft/backend/vdsp.hpp"), ("delegated scaling", F + "algorithm/backend/cblas.hpp")],
     observe=["transform results", "objects acquired from and released to the library", "exceptions of the constructors"])

prop("C33", "The plugin follows its host: gains, mix, saved state, buses, settings",
     "Over every history of prepare, release, buffers, parameter changes and state restores, each output sample of the plugin is the output gain times the balanced mix (dry at full level up to the middle of the control, wet from the middle on) of the "
     "input times the input gain and of its convolution, every setting taking effect with the next buffer; before the first prepare only the gains act, and prepare and release restart the convolution from silence. A saved state holds the parameter values of "
     "the moment it was saved and gives them back to this or any other instance; data that is no state changes nothing. Exactly equal mono or stereo main buses are accepted. Each registered listener, and the editor while it is open, hears of every "
     "prepare once with the new setup.",
     ["histories", "configurations"],
     "all words of host actions up to a depth, all parameter grids, all bus layouts",
     "The plugin has no tests.",
     [E + "plugin/src/PluginProcessor.cpp", E + "plugin/src/PerceptualConvolution.cpp", E + "plugin/src/PluginParameter.cpp", E + "plugin/src/PluginEditor.cpp"],
     [("gains and mix", E + "plugin/src/PerceptualConvolution.cpp"), ("saved state, buses and setup", E + "plugin/src/PluginProcessor.cpp"), ("parameter ranges", E + "plugin/src/PluginParameter.cpp")],
     observe=["output samples", "parameter values", "state data", "calls of listeners", "editor labels"])

prop("C34", "The benchmark tab renders what is loaded, through every order of events",
     "Over every order of opening and closing the editor, choosing or cancelling files, changing settings, host setups, render requests, background jobs and pending messages: a request with a readable signal and impulse response loaded "
     "starts one job per chosen engine and any other request starts none; each job writes one new file with the host's sample rate and the signal's channels and length, which holds that engine's convolution of the two files at that rate "
     "(a shorter set of impulse channels is shared, DenseConvolution delays by its frame, neo::Convolution filters whole blocks only, the sparse engine follows range and kept bins) scaled to a peak of one. Files and settings of a job are those of the "
     "request or of the moment it runs, never a mixture, even when the user acts between any two of its steps. A file that is missing, cancelled or unreadable leaves the loaded impulse response in place. The images and the share of coefficients above the range "
     "always show the loaded impulse response, range and weighting; each finished job adds one line; nothing touches a closed editor; the quality test reports the spectral error of every range.",
     ["schedules", "histories", "inputs"],
     "all words of user, host and worker events up to a depth; every preemption of a job; all shapes and engines",
     "The plugin has no tests.",
     [E + "plugin/src/ui/BenchmarkTab.cpp", E + "plugin/src/ui/BenchmarkTab.hpp", E + "plugin/src/dsp/Convolution.hpp", E + "plugin/src/dsp/DenseConvolution.hpp", E + "plugin/src/dsp/AudioFile.cpp", E + "plugin/src/PluginEditor.cpp"],
     [("what a job renders", E + "plugin/src/ui/BenchmarkTab.cpp"), ("loading files", E + "plugin/src/dsp/AudioFile.cpp"), ("lifetime of the tab", E + "plugin/src/PluginEditor.cpp")],
     observe=["written audio files", "images and text of the tab", "jobs started"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
