# The properties.  tools/gen.py turns this into properties.jsonl and MANIFEST.json.
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
I = 'include/edsp/'

prop('C01', 'The dynamic ring buffer is a bounded double-ended queue',
 'After any history of construction, insertions at either end, removals from either end, clear, resize, writes through references, copies and moves, a ring buffer of capacity N holds exactly the elements a queue bounded to N would hold: an insertion into a full buffer drops the element at the opposite end, clear and resize leave it empty (resize with the new capacity). Size, emptiness, fullness, indexed access, front, back and forward, const and reverse iteration all present those elements in order, checked access outside them throws, and a copy never shares storage with its source.',
 ['histories', 'configurations'], 'every history of the public operations, for every capacity and element type',
 'The test suite never touches a ring buffer directly; the defect classes here (wrap-around at one particular offset, full/empty confusion, aliasing after a copy) need particular histories.',
 [I + 'types/ring_buffer.hpp', I + 'thirdparty/nonstd/ring_span.hpp'],
 [('modular index arithmetic of the view', I + 'thirdparty/nonstd/ring_span.hpp'), ('re-seating of the view over the owned storage', I + 'types/ring_buffer.hpp')],
 state=[('front index, size, capacity', 'position of the window in the storage', I + 'thirdparty/nonstd/ring_span.hpp')])
prop('C02', 'Fixed-size ring buffer and ring view are bounded queues over their storage',
 'A fixed-size ring buffer and a ring view over caller-provided memory behave, after any history of operations, as a double-ended queue bounded by their capacity, with the same ordering and overwrite rules as the dynamic ring buffer. A copied or moved-to fixed buffer owns its elements and never observes or modifies another object, and a view never reads or writes memory outside the range it was given.',
 ['histories', 'configurations'], 'every history of the public operations, every capacity, every initial window of a view',
 'No test uses these types; wrap-around and aliasing defects need specific histories.',
 [I + 'types/fixed_ring_buffer.hpp', I + 'thirdparty/nonstd/ring_span.hpp', I + 'types/ring_span.hpp'],
 [('modular index arithmetic of the view', I + 'thirdparty/nonstd/ring_span.hpp'), ('re-seating of the view over the owned storage', I + 'types/fixed_ring_buffer.hpp')])
prop('C03', 'Moving average and moving RMS equal the statistic of the last N samples',
 'After any history of single samples, blocks, resets and resizes, the output of a moving-average (moving-RMS) filter of window length N is the mean (root mean square) of the last N samples given since construction, the last reset or the last resize, where samples before that point count as zero. Reset restores the behaviour of a freshly constructed filter of the same length and resize that of a fresh filter of the new length; a block gives the same outputs as its samples one by one, also in place.',
 ['histories', 'inputs'], 'every history of sample / block / reset / resize operations, every window length and every input',
 'The tests only check that size() returns the requested length; the filtering itself has no passing test, and reset/resize defects need several steps to show.',
 [I + 'filter/moving_average_filter.hpp', I + 'filter/moving_rms_filter.hpp', I + 'types/ring_buffer.hpp'],
 [('running sum updated with the leaving and the entering sample', I + 'filter/moving_average_filter.hpp'), ('sliding window', I + 'types/ring_buffer.hpp')],
 state=[('window and running sum', 'must always describe the same last N samples', I + 'filter/moving_average_filter.hpp')])
prop('C04', 'The median and the moving median are the middle order statistic',
 'The median of a non-empty sequence is its middle element in sorted order, or the mean of the two middle elements when the length is even, whatever the order of the elements and without modifying them. After any history of samples, blocks, resets and resizes, a moving-median filter of length N outputs the median of the last N samples since construction, reset or resize, where earlier samples count as zero.',
 ['histories', 'inputs'], 'every sequence; every history of sample / block / reset / resize operations and every window length',
 'The tests only check that the filter reports its length; no test looks at a median.',
 [I + 'statistics/median.hpp', I + 'filter/moving_median_filter.hpp'],
 [('order statistic', I + 'statistics/median.hpp'), ('sliding window', I + 'filter/moving_median_filter.hpp')])
prop('C05', 'A biquad computes its difference equation over any history',
 'After any history of samples, blocks, coefficient changes and resets, a biquad outputs y(n) = b0 x(n) + b1 x(n-1) + b2 x(n-2) - a1 y(n-1) - a2 y(n-2), with all coefficients divided by the leading denominator coefficient given at construction or set later, and with zero past at construction, after a reset and after a coefficient change. Splitting the input into samples or blocks in any way, filtering in place and copying the filter never change the output.',
 ['histories', 'inputs', 'configurations'], 'every history of tick / filter / setter / reset / copy, every coefficient set and every input',
 'No test runs a biquad.',
 [I + 'filter/biquad.hpp'], [('transposed direct form II state update', I + 'filter/biquad.hpp')],
 state=[('w0, w1', 'delay line', I + 'filter/biquad.hpp')])
prop('C06', 'A cascade of biquads is their composition in order',
 'A cascade to which biquads have been appended outputs, for every input and after any history of ticks, blocks, appends, clears and resets, what feeding the signal through each appended biquad in order of insertion would output; an empty cascade passes the signal through. Its size, indexed access and iteration present exactly the appended biquads, clear empties it, and reset restores zero past in every stage.',
 ['histories', 'inputs', 'configurations'], 'every history of push / emplace / tick / filter / clear / reset up to the capacity',
 'No test runs a cascade.',
 [I + 'filter/biquad_cascade.hpp', I + 'filter/biquad.hpp'], [('stage array and stage count', I + 'filter/biquad_cascade.hpp')])
prop('C07', 'Biquad stability and pole/zero constructors agree with the transfer function',
 'A biquad reports itself stable exactly when all poles of its normalised transfer function lie strictly inside the unit circle, whatever its coefficients. A biquad built from poles and zeros has exactly those poles and zeros with leading coefficients one, and its coefficient accessors return the normalised values, including after a setter.',
 ['inputs', 'configurations'], 'every coefficient set, every real or conjugate pole/zero set',
 'No test constructs a biquad.',
 [I + 'filter/biquad.hpp'], [('stability triangle', I + 'filter/biquad.hpp'), ('pole/zero constructors', I + 'filter/biquad.hpp')])
prop('C08', 'Butterworth designs are stable, maximally flat filters of the requested band',
 'Every Butterworth low-pass, high-pass, band-pass and band-stop filter designed for an admissible order, sample rate and band edge is stable, has unit gain at its reference frequency (zero, Nyquist, inside the pass band), half power at its cut-off or band edges, and the magnitude response of the bilinear-transformed Butterworth prototype of that order everywhere. The shelving designs reach the requested gain on the shelf and unit gain far from it.',
 ['configurations', 'inputs'], 'every order, sample rate, cut-off / centre / bandwidth and element type',
 'No test designs a filter.',
 [I + 'filter/internal/butterworth_designer.hpp', I + 'filter/internal/abstract_designer.hpp', I + 'filter/internal/bilinear/layout_base.hpp', I + 'filter/internal/bilinear/lowpass_transformer.hpp', I + 'filter/internal/bilinear/highpass_transformer.hpp', I + 'filter/internal/bilinear/bandpass_transformer.hpp', I + 'filter/internal/bilinear/bandstop_transformer.hpp', I + 'filter.hpp'],
 [('analog prototype', I + 'filter/internal/butterworth_designer.hpp'), ('bilinear transforms', I + 'filter/internal/bilinear/lowpass_transformer.hpp'), ('gain normalisation', I + 'filter/internal/abstract_designer.hpp')])
prop('C09', 'Chebyshev designs are stable and keep their ripple and stop-band specification',
 'Every Chebyshev type I low-pass, high-pass, band-pass and band-stop design is stable, keeps its gain within the requested ripple of one over the pass band and below it outside, with the magnitude response of the bilinear-transformed Chebyshev I prototype. Every type II design is stable, stays below the requested stop-band attenuation over the stop band and has the magnitude of the transformed Chebyshev II prototype elsewhere. The shelving designs are stable, keep the requested gain on the shelf within the ripple and have unit gain far from it. When the ripple is not smaller than the gain their response still stays between unity and the requested gain, and a shelf of 0 dB is unity.',
 ['configurations', 'inputs'], 'every order, sample rate, band edge, ripple / attenuation and element type',
 'No test designs a filter.',
 [I + 'filter/internal/chebyshev_I_designer.hpp', I + 'filter/internal/chebyshev_II_designer.hpp', I + 'filter/internal/abstract_designer.hpp', I + 'filter/internal/bilinear/bandpass_transformer.hpp', I + 'filter/internal/bilinear/bandstop_transformer.hpp'],
 [('analog prototypes', I + 'filter/internal/chebyshev_I_designer.hpp'), ('bilinear transforms', I + 'filter/internal/bilinear/bandpass_transformer.hpp')])
prop('C10', 'RBJ and Zoelzer biquad designs have the defining gains of their filter type',
 'For every frequency below Nyquist, quality factor and shelf gain, the RBJ and Zoelzer designers return a stable second-order filter whose response has the defining values of its type: unit gain and double zero at the ends for low-pass and high-pass with gain Q at the design frequency, zero gain at both ends for band-pass with its maximum (Q for RBJ, one for Zoelzer) at the design frequency, unit magnitude everywhere for all-pass, and unit gain on one side and the requested decibels on the other for shelves, and everywhere else the magnitude of the bilinear-transformed second-order prototype.',
 ['configurations', 'inputs'], 'every design frequency, sample rate, Q and gain',
 'No test designs a filter.',
 [I + 'filter/internal/rbj_designer.hpp', I + 'filter/internal/zoelzer_designer.hpp', I + 'filter.hpp'],
 [('closed-form coefficients', I + 'filter/internal/rbj_designer.hpp'), ('closed-form coefficients', I + 'filter/internal/zoelzer_designer.hpp')])
prop('C11', 'Oscillators produce the closed-form waveform after any history',
 'After any history of samples, changes of amplitude, frequency, phase, duty, width, sample rate or time, and resets, each sinusoidal, square, sawtooth and triangular oscillator outputs the closed-form value of its waveform for the current parameters at its current time, and each sample advances the time by exactly one period of the current sample rate. The accessors return the values last set, and no output exceeds the amplitude.',
 ['histories', 'configurations'], 'every history of sample / setter / reset operations and all parameter values',
 'The tests set parameters once and then generate; parameter changes between samples are not exercised, and the square wave is compared in absolute value only.',
 [I + 'oscillator.hpp', I + 'oscillators/square.hpp', I + 'oscillators/sawtooth.hpp', I + 'oscillators/triangular.hpp', I + 'oscillators/sinusoidal.hpp'],
 [('time accumulator', I + 'oscillator.hpp'), ('duty kept in seconds', I + 'oscillators/square.hpp')],
 state=[('timestamp, periods, duty', 'derived values must follow the parameters', I + 'oscillator.hpp')])
prop('C12', 'The Fourier transforms equal their definition for every length',
 'For every length, the complex forward and inverse transforms equal the discrete Fourier sum (the inverse divided by the length), the real forward transform yields the first half spectrum of that sum and the real inverse recovers the even-length real signal, the result being independent of which transforms of other kinds or lengths ran before and of where the buffers lie. Inputs are left unmodified and exactly the documented number of output elements is written.',
 ['inputs', 'configurations', 'histories'], 'every transform length, every input, every sequence of transforms',
 'The tests draw random lengths above 10 from six window shapes and never sum a definition; they cannot reach every length, basis vector or buffer placement.',
 [I + 'spectral/dft.hpp', I + 'spectral/fft_engine.hpp', I + 'spectral/internal/libfftw_impl.hpp', I + 'spectral/internal/fft_impl.hpp'],
 [('plan creation and execution', I + 'spectral/internal/libfftw_impl.hpp'), ('inverse scaling', I + 'spectral/dft.hpp')])
prop('C13', 'A reused transform engine gives the result of a fresh one',
 'An FFT engine of a given length can be used for any sequence of its forward, inverse, real, cosine and Hartley transforms and scalings, on any buffers: every call gives exactly what a fresh engine would give for that call, without crashing and without writing outside the destination.',
 ['histories', 'inputs'], 'every sequence of transform kinds and buffers on one engine, every length',
 'Every library function builds a fresh engine, so the tests never run two transforms on one engine.',
 [I + 'spectral/fft_engine.hpp', I + 'spectral/internal/libfftw_impl.hpp'],
 [('lazily created plan', I + 'spectral/internal/libfftw_impl.hpp')],
 state=[('plan', 'bound to one kind of transform and to buffer placement', I + 'spectral/internal/libfftw_impl.hpp')])
prop('C14', 'Cosine and Hartley transforms equal their definition and invert',
 'For every length N the cosine transform equals the unnormalised DCT-II, twice the sum of x(n) cos(pi k (2n+1) / 2N), the inverse cosine transform undoes it up to rounding, and the Hartley transform equals the sum of x(n)(cos + sin). Inputs are left unmodified and exactly as many elements as the input has are written.',
 ['inputs', 'configurations'], 'every length and every input',
 'The tests compare random window shapes of random length only.',
 [I + 'spectral/dct.hpp', I + 'spectral/hartley.hpp', I + 'spectral/internal/libfftw_impl.hpp'],
 [('plan kinds', I + 'spectral/internal/libfftw_impl.hpp'), ('scaling', I + 'spectral/dct.hpp')])
prop('C15', 'Convolution and correlation equal their direct sums',
 'For two sequences of equal length N, convolution returns the first N terms of the linear (not circular) convolution, and cross-correlation returns the N non-negative lags of the linear correlation, sum over n of x1(n) x2(n-k), divided by N for the biased estimate, by N-k for the unbiased one and not at all by default; autocorrelation is the cross-correlation of a sequence with itself. This holds for every length and every input, and the inputs are left unmodified.',
 ['inputs', 'configurations'], 'every length, input pair and scaling option',
 'The tests sample random window shapes; wrap-around contamination and scaling defects depend on the length and the content at the ends.',
 [I + 'spectral/convolution.hpp', I + 'spectral/correlation.hpp'],
 [('zero padding to a transform length that avoids wrap-around', I + 'spectral/convolution.hpp')])
prop('C16', 'Analytic signal, power spectrum and cepstrum equal their definitions',
 'For every length and every input, the analytic signal has the input as its real part and no negative frequencies, the power spectrum is the squared magnitude of the half spectrum, and the real cepstrum is the first N values of the inverse transform of the logarithm of the magnitude spectrum of the input zero-padded to length 2N, wherever that spectrum does not vanish.',
 ['inputs', 'configurations'], 'every length (even and odd) and every input',
 'The tests sample random lengths and shapes.',
 [I + 'spectral/hilbert.hpp', I + 'spectral/spectrum.hpp', I + 'spectral/cepstrum.hpp'],
 [('frequency-domain weights for even and odd lengths', I + 'spectral/hilbert.hpp')])
prop('C17', 'Window functions equal their formula for every length',
 'For every length of at least two, each window function fills exactly the requested range with the values of its documented formula (the triangular window with L = N for even and N+1 for odd lengths), is symmetric, and lies in the range of that formula; the generic factory selects the named window.',
 ['configurations'], 'every window type, every length, every element type',
 'Each test draws one random length; the triangular, Welch, Hamming and Hann windows are not all tested.',
 [I + 'windowing.hpp'] + [I + 'windowing/%s.hpp' % w for w in ('bartlett', 'blackman', 'blackman_harris', 'blackman_nuttall', 'boxcar', 'flattop', 'hamming', 'hanning', 'rectangular', 'triangular', 'welch')],
 [('per-window loops', I + 'windowing/bartlett.hpp')])
prop('C18', 'Element-wise algorithms map every element and nothing else',
 'Scaling, scaling with clipping, clipping, ceiling, floor, rounding, truncation, rectification, normalisation by peak and by RMS, and the difference of neighbours each write exactly one output per input element, equal to the mathematical definition applied to that element, for every input including negative, extreme and in-place ones and through any iterator category. Nothing outside the destination is written and the input is not modified unless it is the destination.',
 ['inputs', 'configurations'], 'every input sequence, length, parameter and iterator kind, in place or not',
 'The tests use positive smooth window shapes only; sign, tie, in-place and boundary behaviour is not reached.',
 [I + 'algorithm/%s.hpp' % w for w in ('amplifier', 'clipper', 'ceil', 'floor', 'round', 'fix', 'rectify', 'normalize', 'derivative')],
 [('element-wise transforms', I + 'algorithm/amplifier.hpp')])
prop('C19', 'Search, comparison and assembly of sequences agree with their specification',
 'Linear search and index-of return the first matching position or the end / minus one, binary search on a sorted range finds an equal element exactly when one exists, sequence equality holds exactly when the lengths and all elements agree, concatenation is the first sequence followed by the second, padding copies the input and zero-fills the rest of the destination, and the silence test compares the mean power with the threshold.',
 ['inputs'], 'every pair of sequences, every searched value (present, absent, repeated, at the ends)',
 'The tests search only for present values in generic position and compare equal-length arrays.',
 [I + 'algorithm/%s.hpp' % w for w in ('linear_search', 'binary_search', 'indexof', 'equal', 'concatenate', 'padder', 'silence')],
 [('bisection', I + 'algorithm/binary_search.hpp'), ('tolerant equality', I + 'meta/equal.hpp')])
prop('C20', 'Linear, logarithmic and auditory spaces have exact ends and spacing',
 'A linear space of N points starts at the first bound, ends at the second and is evenly spaced; a logarithmic space consists of the powers of ten of the corresponding linear space; each auditory space equals the perceptual scale of the corresponding linear frequency space. Exactly N values are written for every N of at least one, whatever the order and sign of the bounds.',
 ['inputs', 'configurations'], 'every number of points and every pair of bounds',
 'The tests draw random increasing bounds and compare to six decimals.',
 [I + 'algorithm/linspace.hpp', I + 'algorithm/logspace.hpp', I + 'auditory/audspace.hpp', I + 'auditory/barkspace.hpp', I + 'auditory/centspace.hpp', I + 'auditory/erbspace.hpp', I + 'auditory/melspace.hpp'],
 [('increment accumulation', I + 'algorithm/linspace.hpp')])
prop('C21', 'Moments, means, norms and extrema equal their definition',
 'Mean, n-th central moment, variance, standard deviation, skewness, kurtosis, arithmetic / generalised / geometric / harmonic mean, norm, maximum, minimum, their absolute variants and the peaks equal their mathematical definitions (moments are population moments, divided by N) for every non-empty sequence in their domain (positive values for the logarithmic, harmonic and odd-power means, non-constant values for skewness and kurtosis), through any forward iterator and without modifying the input. A peak is the pair of the first position attaining the maximum (of the values, or of the absolute values) and the signed sample there.',
 ['inputs'], 'every non-empty sequence, including negative values, ties, single elements',
 'The tests use positive smooth data, so absolute-value variants, sign handling and ties are never exercised.',
 [I + 'statistics/%s.hpp' % w for w in ('mean', 'moment', 'variance', 'skewness', 'kurtosis', 'max', 'min', 'peak', 'norm', 'generalized_mean', 'geometric_mean', 'harmonic_mean')],
 [('accumulations', I + 'statistics/moment.hpp')])
prop('C22', 'Temporal features equal their definition',
 'Energy, power, RMS, root sum of squares, zero-crossing rate, duration, effective duration, equivalent level, loudness, signal-to-noise ratio and the average magnitude and squared difference functions equal their mathematical definitions for every non-empty signal in their domain: the crossing rate is the number of sign changes divided by N-1 (zero counts as positive), the effective duration counts samples whose magnitude exceeds the given fraction of the peak, the signal-to-noise ratio is ten times the decimal logarithm of the variance of the reference over the variance of the difference, every lag of a difference function is divided by N, and the continuous level is the moving average of the frame levels.',
 ['inputs'], 'every signal and length, including silence, single samples, alternating signs',
 'The tests use loud audio with one percent tolerance, which hides additive errors that dominate for quiet signals.',
 [I + 'feature/temporal/%s.hpp' % w for w in ('energy', 'power', 'rms', 'rssq', 'azcr', 'duration', 'leq', 'snr', 'amdf', 'asdf')],
 [('accumulations', I + 'feature/temporal/rms.hpp')])
prop('C23', 'Spectral and statistical descriptors equal their definition',
 'Centroid, spread, crest, flatness, entropy, roll-off, flux, slope, decrease, variation, irregularity, skewness and kurtosis of a spectrum or sequence equal their documented formulas for every input of sufficient length (and every pair of inputs of equal length) for which the formula is defined - zeros and, where no logarithm or weighted root forbids it, negative values included - and only the given ranges are read. Entropy is divided by the logarithm of the length and empty bins contribute nothing, crest is the peak magnitude over the sum of the magnitudes, flux compares both inputs after dividing each by its own sum, variation is one minus the normalised correlation, decrease averages (x(n)-x(0))/n over the sum of the tail, and roll-off is the first position whose accumulated energy exceeds the given fraction of the total (the last if none does), divided by the length.',
 ['inputs'], 'every pair of sequences in the domain of the formula',
 'The tests compare flux only of identical arrays and do not cover slope, decrease, variation or irregularity at all.',
 [I + 'feature/statistics/%s.hpp' % w for w in ('centroid', 'crest', 'decrease', 'entropy', 'flatness', 'flux', 'rolloff', 'slope', 'spread', 'variation')] + [I + 'feature/spectral/spectral_%s.hpp' % w for w in ('centroid', 'crest', 'decrease', 'entropy', 'flatness', 'flux', 'irregularity', 'kurtosis', 'rolloff', 'skewness', 'slope', 'spread', 'variation')],
 [('accumulations', I + 'feature/statistics/centroid.hpp')])
prop('C24', 'Unit conversions are correct, monotone and mutually inverse',
 'Decibel, angle, and Hertz / Mel / Bark / ERB / cent conversions equal their documented formulas over their whole domain; each forward and backward pair are inverse functions of one another and strictly increasing (the cent scale for frequencies above its zero at 16.35 Hz, mirrored in sign for negative arguments; the Bark scale below its last band). Peak-to-peak and peak-to-RMS equal their definitions for every signal, and complex/real splitting and joining preserve every element.',
 ['inputs'], 'every value in the domain, on both sides of every piecewise boundary; every signal',
 'The tests sample random positive values in one range and never both sides of the Bark correction boundaries.',
 [I + 'converter/%s.hpp' % w for w in ('db2mag', 'db2pow', 'mag2db', 'pow2db', 'deg2rad', 'rad2deg', 'peak2peak', 'peak2rms', 'complex2real', 'real2complex')] + [I + 'auditory/converter/%s.hpp' % w for w in ('bark2hertz', 'cent2hertz', 'erb2hertz', 'hertz2bark', 'hertz2cent', 'hertz2erb', 'hertz2mel', 'mel2hertz')],
 [('closed-form conversions', I + 'auditory/converter/hertz2bark.hpp')])
prop('C25', 'String helpers split, join, trim and change case losslessly',
 'Splitting returns exactly the non-empty segments between delimiters in order, joining places one delimiter between consecutive elements, trimming removes exactly the white space at the chosen ends, and case conversion maps every character and nothing else, for every string. Joining what splitting returned restores the string up to empty segments.',
 ['inputs'], 'every string and delimiter, including empty strings, only delimiters, only white space, repeated characters',
 'The tests use random letters and spaces only.',
 [I + 'string/%s.hpp' % w for w in ('split', 'join', 'trim', 'to_lower', 'to_upper')],
 [('stream based splitting', I + 'string/split.hpp')])
prop('C26', 'Environment access is atomic, exclusive and reports every outcome',
 'When any number of threads read, test and write environment variables through the library, none is ever inside the process environment functions while another one writes there, no schedule deadlocks or leaves the lock held, and every call returns what some sequential order of the calls would return. A variable that was set is found with its last value, also when that value is empty and when name and value are views into longer text; an empty name, a missing variable and a failure of the system call are reported as such, and overwriting happens only when requested.',
 ['schedules', 'histories'], 'every interleaving of the threads, every sequence of set / get / exist calls',
 'The tests are single threaded and only set fresh non-empty variables.',
 [I + 'core/system.hpp'], [('static mutex around every access', I + 'core/system.hpp')])
prop('C27', 'Audio files are opened, used and closed exactly once under any history and fault',
 'For every history of open, read, write, seek, query and close on a decoder or encoder, including failing opens, short reads and writes and failing seeks, every file handle obtained is closed exactly once and never used after it was closed or when opening failed. The object reports itself open exactly while it holds a handle, reads and writes report exactly the number of samples transferred, and destruction is always safe.',
 ['histories', 'fault_sequences'], 'every history of operations, every outcome of each underlying call',
 'The tests open and read healthy files once; the encoder test does not pass because of a double close.',
 [I + 'io/internal/decoder/libsndfile_decoder_impl.hpp', I + 'io/internal/decoder/decoder_impl.hpp', I + 'io/decoder.hpp', I + 'io/internal/encoder/libsndfile_encoder_impl.hpp', I + 'io/internal/encoder/encoder_impl.hpp', I + 'io/encoder.hpp'],
 [('handle ownership', I + 'io/internal/decoder/libsndfile_decoder_impl.hpp'), ('handle ownership', I + 'io/internal/encoder/libsndfile_encoder_impl.hpp')],
 state=[('file handle', 'non-null exactly while open', I + 'io/internal/decoder/libsndfile_decoder_impl.hpp')])
prop('C28', 'Encoding and decoding a file is lossless for any partition of the samples',
 'Samples written to a floating-point audio file in blocks of any sizes are read back identically in blocks of any other sizes and with any interleaved seeks, together with the number of frames, channels and the sample rate they were written with.',
 ['histories', 'inputs', 'configurations'], 'every partition into write blocks and read blocks, every seek position, channel count and element type',
 'The round-trip test does not pass on the original tree and writes one block of one channel.',
 [I + 'io/internal/decoder/libsndfile_decoder_impl.hpp', I + 'io/internal/encoder/libsndfile_encoder_impl.hpp', I + 'io/decoder.hpp', I + 'io/encoder.hpp'],
 [('chunked reading and writing', I + 'io/internal/decoder/libsndfile_decoder_impl.hpp')])
prop('C29', 'The resampler accounts exactly for every frame consumed and produced',
 'For every channel count, ratio, quality and partition of the input into blocks, the resampler consumes only frames it was given, never writes more than input frames times ratio, reports exactly the frames consumed and generated, and streaming in blocks produces a prefix-consistent signal, the one of the conversion the quality names. Invalid ratios are rejected by the validity predicate; an invalid ratio, quality or channel count or a failing conversion is reported as an error with no frame consumed or produced; the conversion state is released exactly once; and reset restores the state of a fresh resampler.',
 ['histories', 'configurations', 'fault_sequences'], 'every partition of the input, every ratio, quality and channel count, every underlying outcome',
 'The resampling itself is commented out in the tests.',
 [I + 'io/internal/resampler/libsamplerate_impl.hpp', I + 'io/internal/resampler/resampler_impl.hpp', I + 'io/resampler.hpp'],
 [('frame accounting', I + 'io/internal/resampler/libsamplerate_impl.hpp')])
prop('C30', 'The ADSR envelope follows its state machine and stays in range',
 'For every history of key presses, key releases, parameter changes and samples, the ADSR envelope moves only along idle, attack, decay, sustain, release, idle (back to attack on a key press from any phase, and to attack or decay when a new target is set), rises monotonically to the attack target (full level unless set) while attacking, moves monotonically to the sustain level while decaying, holds it, and falls to zero while releasing. Its gain always stays between zero and one for levels in that range, and it reaches the end of each phase within the configured time when the times are set after the level they refer to.',
 ['histories', 'configurations'], 'every history of key on / off / parameter change / sample, every parameter set',
 'No test uses the envelope.',
 [I + 'experimental/envelope/adsr.hpp'], [('phase transitions', I + 'experimental/envelope/adsr.hpp')],
 state=[('phase and current level', 'the envelope position', I + 'experimental/envelope/adsr.hpp')])
prop('C31', 'Numeric predicates and helpers are exact on their whole domain',
 'Parity, primality, power-of-two test, next power of two, sign, fractional part, inverse, half and square helpers, and the distance functions return the mathematically correct value for every argument in the domain of their type (the power-of-two helpers for integers of at least one; sign of zero is one), and every named constant equals its closed form to double precision.',
 ['inputs'], 'every integer in the type (bounded) and every pair of values',
 'No test calls these helpers directly.',
 [I + 'math/numeric.hpp', I + 'math/complex.hpp', I + 'math/constant.hpp'], [('closed-form helpers', I + 'math/numeric.hpp')])
prop('C32', 'The C interface computes exactly what the C++ library computes',
 'Every function of the C interface returns, for every input, the same values as the corresponding C++ function on the same data, in the documented place and number.',
 ['inputs', 'configurations'], 'every exported function, every input',
 'The tests reach the C interface only through some Python wrappers, on positive data that hides swapped functions.',
 ['bindings/c/src/algorithm.c', 'bindings/c/src/converter.cpp', 'bindings/c/src/core.c', 'bindings/c/src/spectral.c', 'bindings/c/src/statistics.c', 'bindings/c/src/windowing.c'],
 [('forwarding functions', 'bindings/c/src/statistics.c')])
prop('C33', 'Noise generators stay in range and depend on nothing but their seed',
 'Whatever words the random engine delivers and however many samples have been drawn, white noise lies in its range and is uniform over the words of the engine, pink and brown noise are the fixed filters of that white noise and stay within their gain, gradient noise stays within one in magnitude, is continuous and has balanced gradients that repeat with its lattice, binary samples are one exactly with the given probability, and constant ones are the constant. A random number drawn from a range lies in that range, its ends included, uniformly over the words of the random device. Generators seed their engine from the system clock: created at the same clock reading with the same parameters they produce the same sequence, for the distribution generators that of the standard distribution of their name.',
 ['histories', 'configurations'], 'every word sequence of the engine, clock reading, parameter set and number of samples',
 'No test uses the generators, which seed themselves from the clock.',
 [I + 'random/noise/white_noise_generator.hpp', I + 'random/noise/pink_noise_generator.hpp', I + 'random/noise/brown_noise_generator.hpp', I + 'random/noise/perlin_noise_generator.hpp', I + 'random/random_generator.hpp', I + 'random/binary_generator.hpp', I + 'random/constant_generator.hpp', I + 'math/numeric.hpp'],
 [('range limiting', I + 'random/noise/brown_noise_generator.hpp')])
prop('C34', 'Mu-law companding is an odd monotone bijection with its documented inverse',
 'Mu-law compression maps the interval from minus one to one onto itself, is odd and strictly increasing, and expansion with the same factor restores every sample; both process every element of a sequence, also in place.',
 ['inputs', 'configurations'], 'every sample value and compression factor',
 'No test uses the compander.',
 [I + 'experimental/quantizer/mu_law_compressor.hpp'], [('closed form', I + 'experimental/quantizer/mu_law_compressor.hpp')])
prop('C35', 'The frequency response of a rational filter equals its definition',
 'The sampled frequency response of a filter given by numerator and denominator coefficients equals, at every one of the K frequencies between zero and Nyquist, the quotient of the two polynomials on the unit circle wherever the denominator is not zero, for every filter order and every K, and writes exactly K values.',
 ['inputs', 'configurations'], 'every coefficient set and number of frequencies',
 'No test calls it.',
 [I + 'filter.hpp'], [('polynomial evaluation', I + 'filter.hpp')])
prop('C36', 'The attack-release envelope follower tracks the signal envelope',
 'For every input and every history of parameter changes and resets, the attack-release envelope is the one-pole average of the (optionally rectified) input whose time constant is the attack time in milliseconds while the input is above it and the release time while it is below. It never leaves the range of zero and the inputs seen, never becomes denormal, and a reset or parameter change returns it to the state of a fresh follower with the current settings.',
 ['histories', 'inputs'], 'every input sequence, parameter set and reset point',
 'No test uses the envelope.',
 [I + 'experimental/envelope/ar.hpp'], [('one-pole smoothing', I + 'experimental/envelope/ar.hpp')])
prop('C37', 'Reading audio metadata is faithful and never fails on missing data',
 'For every audio file with an ID3, Vorbis or Opus tag, the metadata reader returns, however often it is asked or copied, exactly the title, artist, album, genre (as UTF-8), year and track stored in the tag when the reader was made, and empty or zero values for absent fields; a missing, empty or malformed file yields empty metadata and never a crash.',
 ['inputs', 'fault_sequences'], 'every combination of present and absent tags, every unreadable or malformed file',
 'The tests read a fixed set of healthy files.',
 [I + 'io/metadata.hpp', I + 'io/internal/metadata/libtag_impl.hpp', I + 'io/internal/metadata/metadata_impl.hpp'], [('tag access', I + 'io/internal/metadata/libtag_impl.hpp')])
prop('C38', 'The logger delivers each message once, complete and in order',
 'For every history of logger creation, insertion of values and manipulators, and destruction, the text a logger delivers to the console is exactly the concatenation of what was inserted (every value formatted as the standard stream does and followed by a space, strings complete, manipulators as their character or escape code) and the closing style reset, delivered once, when the logger ends, if the level of the logger is at least the default level and neither is off; name, level, default level, default name and default path are those last set.',
 ['histories'], 'every sequence of insertions and settings',
 'No test uses the logger.',
 [I + 'core/logger.hpp'], [('buffered stream flushed on destruction', I + 'core/logger.hpp')])
prop('C39', 'The Python interface computes exactly what the library computes on every array',
 'Every function and class of the Python module returns, for every one-dimensional array of real values of any element type and memory layout, the values the library defines for it, as a new array of the right length, leaving its argument unchanged; arrays of another dimension and operands of different lengths raise an exception, and no argument (empty arrays included) crashes the interpreter.',
 ['inputs', 'histories'], 'every exported function, every array',
 'The tests call most functions once on positive smooth data; several conversions are commented out.',
 ['bindings/python/src/%s.cpp' % w for w in ('algorithm', 'auditory', 'converter', 'core', 'feature_spectral', 'feature_statistics', 'feature_temporal', 'filter', 'io', 'oscillator', 'package', 'spectral', 'statistics', 'string', 'windowing')] + ['bindings/python/include/boost_numpy_dependencies.hpp'],
 [('forwarding wrappers', 'bindings/python/src/algorithm.cpp')])
prop('C40', 'The value types behave as specified over any history',
 'An optional, an expected result, a type-erased value, a variant, a string view and an array view behave, after any history of construction, assignment between any two states, swap, reset and access, as their standard counterparts: the observed content is the last one stored, every stored object is destroyed exactly once, and access to an absent or differently typed content throws.',
 ['histories'], 'every sequence of operations on up to two objects of each type',
 'No test uses these types directly.',
 [I + 'types/%s.hpp' % w for w in ('optional', 'expected', 'any', 'variant', 'string_view', 'span')] + [I + 'thirdparty/nonstd/%s.hpp' % w for w in ('optional', 'expected', 'any', 'variant', 'string_view', 'span')],
 [('manual lifetime management', I + 'thirdparty/nonstd/optional.hpp')])
prop('C41', 'Every public header stands alone, in any order and in several units',
 'Every public header of the library can be included alone, and what it declares used without any other include; it can also be included twice, next to every other public header in any order, and in several translation units of one program, under the language standards the library supports, in debug and release builds, and the program compiles and links.',
 ['configurations'], 'every sequence of includes, language standard and build type',
 'The test suite compiles a few fixed combinations of headers in the bindings.',
 [I + w for w in ('algorithm.hpp', 'converter.hpp', 'filter.hpp', 'io.hpp', 'math.hpp', 'oscillator.hpp', 'random.hpp', 'statistics.hpp', 'windowing.hpp', 'types/span.hpp', 'meta/iterator.hpp', 'meta/expects.hpp', 'filter/moving_average_filter.hpp', 'feature/temporal/snr.hpp')], [('include lists and inline definitions', I + 'filter.hpp')])
prop('C42', 'The contracts of a debug build accept every valid use',
 'In a build with assertions enabled, every valid use of the filters, filter designers, oscillators, transforms, windows, algorithms, features, envelopes and buffers, over every history and configuration, gives the same results as the release build: no precondition, postcondition or assertion of the library fires on it and the process is never aborted.',
 ['histories', 'configurations', 'inputs'], 'every valid history, configuration and input, in a build without NDEBUG',
 'The tests and the bindings are built with NDEBUG, where no contract is evaluated.',
 [I + w for w in ('converter/mag2db.hpp', 'converter/pow2db.hpp', 'oscillators/square.hpp', 'oscillators/sawtooth.hpp', 'algorithm/padder.hpp', 'experimental/quantizer/mu_law_compressor.hpp', 'experimental/envelope/adsr.hpp', 'meta/expects.hpp', 'meta/ensure.hpp', 'spectral/fft_engine.hpp', 'spectral/spectrum.hpp', 'spectral/convolution.hpp', 'spectral/correlation.hpp', 'spectral/cepstrum.hpp', 'io/internal/encoder/libsndfile_encoder_impl.hpp', 'io/internal/decoder/libsndfile_decoder_impl.hpp', 'filter/biquad_cascade.hpp', 'filter/biquad.hpp', 'filter/internal/chebyshev_II_designer.hpp', 'filter/internal/bilinear/layout_base.hpp', 'filter/internal/butterworth_designer.hpp', 'filter/internal/chebyshev_I_designer.hpp')], [('contracts', I + 'meta/expects.hpp')])
prop('C43', 'The generic helpers agree with their standard counterparts',
 'For every finite argument, the equality helper is exact for non-floating types and true exactly within one epsilon of the type for floating-point ones (never for NaN); contains, advance, size, empty, data and the null test give, for every container, array, list, pointer and text, what the standard operations give; and the type predicates and aliases agree with the standard traits for every arithmetic, pointer and iterator type.',
 ['inputs', 'configurations'], 'every value pair, container content and type',
 'No test uses the helpers directly; several had never been instantiated.',
 [I + 'meta/%s.hpp' % w for w in ('advance', 'cast', 'contains', 'data', 'empty', 'ensure', 'equal', 'expects', 'is_char', 'is_iterator', 'is_null', 'is_signed', 'is_unsigned', 'iterator', 'size', 'type_traits', 'unused')],
 [('overload sets over containers, arrays and pointers', I + 'meta/data.hpp')])
prop('C44', 'Calls on different objects and data may run in different threads',
 'When several threads use the library at the same time, each on objects and data of its own, every call gives the result it gives alone, whatever the interleaving: nothing is shared between objects of the same or of different types. In particular the planner of the transform library, which is not reentrant, is never entered by one thread while another is inside it, no plan is destroyed twice or while it is being executed, no schedule deadlocks and no lock stays held.',
 ['schedules'], 'every interleaving of two or three threads calling any two or three functions',
 'The tests and the bindings are single threaded.',
 [I + w for w in ('spectral/internal/libfftw_impl.hpp', 'spectral/fft_engine.hpp', 'spectral/spectrum.hpp', 'spectral/convolution.hpp', 'spectral/correlation.hpp', 'spectral/cepstrum.hpp', 'spectral/hilbert.hpp', 'statistics/median.hpp', 'statistics/moment.hpp', 'filter/biquad_cascade.hpp', 'filter/moving_median_filter.hpp', 'random/noise/pink_noise_generator.hpp', 'random/noise/perlin_noise_generator.hpp')],
 [('one lock around every planner call', I + 'spectral/internal/libfftw_impl.hpp')])
