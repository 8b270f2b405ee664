"""The listed properties; mkmanifest.py writes properties.jsonl and MANIFEST.json from this."""
D = "sci-rs/src/signal/filter/design/"
F = "sci-rs/src/signal/filter/"
S = "sci-rs/src/"


def m(name, where):
    return dict(name=name, where=where)


P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=mech, hook_needed=None)
    if state:
        a["state"] = state
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note=note))


prop("C01", "Second-order-section filtering follows the cascade difference equation",
     "For every list of second-order sections and every input signal, the output of each filtering entry point (collected, lazy iterator, single sample, fast 32-bit slice, fast integer-to-32-bit slice) equals the cascade of the sections' difference equations y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], started from the state the sections carry, up to rounding of the sample type. There are as many output samples as input samples, in order, for any length (zero included) and any number of sections.",
     ["inputs", "configurations"], "all coefficients, all signals and lengths, all section counts, all entry points, f32 and f64",
     "Tests compare a handful of fixed signals against printed scipy output with 1 to 4 sections; unrolled code paths per section count and tile remainders are not all reached.",
     [F + "sosfilt.rs", D + "sos.rs"],
     [m("direct form II transposed per section, unrolled by section count and tile", F + "sosfilt.rs: sosfilt_dyn, sosfilt_st, sosfilt_item, sosfilt_fast32_st, sosfilt_ifast32_st, biquad_fold and tile helpers")],
     "Spec Sos.tla gives the difference equation; TLC checks exhaustively over small coefficients that the transposed form the code uses refines it, then judges every recorded call of the real entry points against the exact (rational) recursion with a derived rounding bound.",
     [m("zi0, zi1", D + "sos.rs: the two memories of a section")])
prop("C02", "Filtering a stream in chunks equals filtering it at once",
     "For every split of a signal into consecutive chunks (empty ones included) and every choice of filtering entry point per chunk, filtering the chunks in order on the same sections yields the concatenation that filtering the whole signal yields, and leaves the sections in the same state. An output sample never depends on later input, and filtering never changes a section's coefficients.",
     ["histories", "inputs"], "all chunkings, all interleavings of entry points over the same sections, all section counts",
     "Tests filter whole signals; only one test feeds samples one at a time, none mixes entry points or checks the carried state.",
     [F + "sosfilt.rs", D + "sos.rs"], [m("state kept in the sections between calls", F + "sosfilt.rs: every entry point writes zi0/zi1 back")],
     "TLC enumerates all operation histories up to a bound on the spec, exports chunkings as behaviours, the driver replays them on the real sections and TLC validates state and output after every step.")
prop("C03", "Steady-state initial conditions make a constant input pass unchanged",
     "For every digital filter without a pole at 1, the initial conditions computed for it (from numerator and denominator coefficients with non-unit leading denominator and unequal lengths allowed, or for a cascade of sections) are the states at which a unit constant input produces the constant output equal to the filter's gain at zero frequency. For a cascade every section receives the state that fits the constant its predecessors deliver. Two single-coefficient filters are outside this statement.",
     ["inputs"], "all coefficient vectors with total order at least one and non-singular steady state, all cascades",
     "Tests compare three fixed filters with scipy output.",
     [F + "lfilter_zi.rs", F + "sosfilt_zi.rs", "sci-rs/src/linalg/companion.rs"],
     [m("linear system (I - A) zi = B on the companion matrix", F + "lfilter_zi.rs"), m("running gain over sections", F + "sosfilt_zi.rs")],
     "Spec Steady.tla defines the fixed point; TLC checks the closed form against the recursion on small rationals and judges each recorded result by its exact residual, relative to the conditioning of the system.")
prop("C04", "Zero-phase filtering is forward-backward filtering of the extended signal",
     "For every cascade of sections with a steady state and every signal longer than the padding, zero-phase filtering returns exactly as many samples as it was given: the signal extended at both ends by point reflection, filtered forward from the steady state of its first value, reversed, filtered forward again from the steady state of its first value, reversed and with the extension removed. The padding is three times (2 n + 1 minus the smaller of the number of sections with vanishing last numerator and last denominator coefficients), and the given sections are not modified; signals too short for the padding are refused.",
     ["inputs"], "all cascades, all signals of every length, f32 and f64",
     "Tests check two fixed filters on fixed signals.",
     [F + "sosfiltfilt.rs", F + "ext.rs", F + "sosfilt_zi.rs"], [m("pad, forward, reverse, forward, trim", F + "sosfiltfilt.rs: sosfiltfilt_dyn")],
     "Spec FiltFilt.tla composes Ext, Steady and Sos exactly; TLC checks length, linearity and time-reversal facts on small models and judges recorded runs with a forward error bound.")
prop("C05", "Signal extension reflects about the end points around the unchanged signal",
     "For every matrix, axis and extension length below the axis length, odd extension returns the original data unchanged in the middle with, on each side, the mirror image reflected through the end value (2 edge - mirrored value), columns or rows independent of each other. Padding chooses the documented default edge length when none is given and refuses signals no longer than the edge; with no padding the data come back unchanged.",
     ["inputs", "configurations"], "all shapes, both axes, all lengths, all padding kinds",
     "Tests use one small vector and one matrix.",
     [F + "ext.rs"], [m("slicing and concatenation per axis", F + "ext.rs: odd_ext_dyn, pad, axis_slice")],
     "Spec Ext.tla; exhaustively model-checked for small shapes (involution, middle preserved) and every recorded call compared element by element. Known finding: even and constant padding are not implemented.")
prop("C06", "Filter design accepts exactly the documented requests, with documented defaults",
     "A design request is refused (panic) when its critical frequencies are not positive, not increasing, at or above the Nyquist frequency for a digital filter, or of the wrong number for the band type, when a sampling frequency accompanies an analog request, when ripple or attenuation is negative, or missing where the filter kind needs it; every other Butterworth, Chebyshev I or II request of order at least one with positive ripple succeeds. Left-out options mean lowpass (bandpass for the general entry point), numerator/denominator output, digital, and frequencies relative to Nyquist; giving the sampling frequency means the same as dividing the frequencies by half of it.",
     ["configurations", "inputs"], "all combinations of order, frequencies, ripple, band, kind, analog, output, sampling frequency",
     "Tests only make well-formed calls, mostly with every option given.",
     [D + "iirfilter.rs", D + "butter.rs"], [m("validation and option defaults", D + "iirfilter.rs: iirfilter_dyn, cheby1_dyn, cheby2_dyn; butter.rs: butter_dyn")],
     "Spec Gate.tla is the decision table over all option combinations; TLC judges accept/refuse, defaults and equivalent spellings for an enumeration of combinations run on the real code.")
prop("C07", "Butterworth designs have the maximally flat magnitude response",
     "For every order of at least one and every band type, analog or digital, the designed Butterworth filter's squared magnitude is 1 / (1 + w^2N) where w is the lowpass-equivalent of the frequency (through the bilinear tangent warping for digital filters): one in the pass band, one half at each critical frequency. This holds in every output format.",
     ["inputs", "configurations"], "all orders, critical frequencies, band types, analog/digital and evaluation frequencies",
     "Tests compare four fixed designs with scipy.",
     [D + "butter.rs", D + "iirfilter.rs", D + "bilinear_zpk.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs"],
     [m("prototype, frequency transformation, bilinear map, format conversion", D + "iirfilter.rs: iirfilter_dyn")],
     "Spec Magnitude.tla states the closed-form law; TLC evaluates the returned roots/coefficients exactly (arbitrary precision) at a set of frequencies and compares with the law, with a tolerance from the condition of the evaluation.")
prop("C08", "Chebyshev I designs are equiripple in the pass band with the asked ripple",
     "For every order of at least one, positive pass-band ripple rp in decibels and band type, analog or digital, the designed Chebyshev I filter's squared magnitude is 1 / (1 + e^2 T_N(w)^2) with e^2 = 10^(rp/10) - 1 and w the lowpass-equivalent frequency. In particular it never falls below the ripple in the pass band, equals it at each critical frequency, and even orders start at the ripple.",
     ["inputs", "configurations"], "all orders, ripples, critical frequencies, band types, analog/digital and evaluation frequencies",
     "Tests compare a few fixed designs with scipy.",
     [D + "iirfilter.rs"], [m("Chebyshev I prototype", D + "iirfilter.rs: cheb1ap_dyn"), m("transformations", D + "lp2bp_zpk.rs, lp2bs_zpk.rs, lp2hp_zpk.rs, lp2lp_zpk.rs, bilinear_zpk.rs")],
     "As C07 with the Chebyshev I law.")
prop("C09", "Chebyshev II designs are equiripple in the stop band at the asked attenuation",
     "For every order of at least one, positive stop-band attenuation rs in decibels and band type, analog or digital, the designed Chebyshev II filter's squared magnitude is 1 / (1 + 1 / (e^2 T_N(1/w)^2)) with e^2 = 1 / (10^(rs/10) - 1) and w the lowpass-equivalent frequency. In particular it never exceeds the attenuation in the stop band and reaches it at each critical frequency (highpass and bandstop of order two or more are known not to hold and are recorded as findings).",
     ["inputs", "configurations"], "all orders, attenuations, critical frequencies, band types, analog/digital and evaluation frequencies",
     "Tests compare a few fixed prototypes with scipy; no design test existed because the design panicked.",
     [D + "iirfilter.rs", D + "lp2hp_zpk.rs", D + "lp2bs_zpk.rs"], [m("Chebyshev II prototype", D + "iirfilter.rs: cheb2ap_dyn"), m("transformations", D + "lp2bp_zpk.rs, lp2lp_zpk.rs, bilinear_zpk.rs")],
     "As C07 with the Chebyshev II law. Known findings for highpass and bandstop (pinned by existing tests) are recognised by the exact deviating law, so other deviations of those bands are still reported.")
prop("C10", "All output formats of a design denote the same transfer function",
     "For every admissible design request, the zeros/poles/gain, numerator/denominator and second-order-section outputs denote the same rational function (in powers of 1/z for digital filters, of s for analog ones). Denominators start with one, there are half the order (rounded up) sections, and the overall gain is carried by the first section.",
     ["configurations", "inputs"], "all kinds, orders, band types, frequencies, analog/digital",
     "Tests check each format on a different design.",
     [D + "iirfilter.rs", D + "zpk2sos.rs", D + "zpk2tf.rs", D + "cplx.rs"], [m("conversions from zeros/poles/gain", D + "zpk2sos.rs, zpk2tf.rs")],
     "TLC multiplies out the recorded formats in arbitrary precision and compares them at evaluation points, relative to the condition of each form.")
prop("C11", "Second-order-section conversion realises any real rational function",
     "For every conjugate-closed set of zeros and poles and real gain, conversion to second-order sections yields real sections whose product is the given rational function, each holding at most two zeros and two poles with conjugates together, in half the number of roots (rounded up) sections; digital sections are ordered so that the poles closest to the unit circle come last. Sets that are not conjugate-closed, analog conversion with nearest pairing and minimal or analog conversion with more zeros than poles are refused.",
     ["inputs", "configurations"], "all root multisets (real, complex, repeated, odd/even counts), gains, pairing strategies, analog/digital",
     "Tests convert two or three fixed root sets; pairing is a greedy algorithm with many count/kind combinations.",
     [D + "zpk2sos.rs", D + "cplx.rs"], [m("greedy pairing of the worst pole with the nearest zero", D + "zpk2sos.rs: zpk2sos_dyn"), m("splitting into conjugate pairs and reals", D + "cplx.rs: cplxreal_dyn")],
     "Spec Pairing.tla is the greedy dealing automaton; TLC explores all root-kind compositions up to 10 roots (18 thorough) and shows that dealing never gets stuck outside the listed shapes; recorded conversions are multiplied back exactly.")
prop("C12", "Polynomial expansion reproduces the roots and the gain",
     "For every conjugate-closed set of zeros and poles and real gain, expansion yields the real monic denominator with exactly the given poles and the numerator equal to the gain times the monic polynomial with exactly the given zeros, both padded with trailing zeros to one more than the requested order; expansion of an empty root set is the constant one. Root sets that are not closed under conjugation, however nearly, expand to their complex coefficients.",
     ["inputs"], "all root sets, gains and orders",
     "Tests expand one fixed set.",
     [D + "zpk2tf.rs"], [m("repeated multiplication by linear factors", D + "zpk2tf.rs: poly_dyn, zpk2tf_dyn")],
     "TLC recomputes the expansion exactly and compares with a bound proportional to the expansion of absolute values.")
prop("C13", "Frequency transformations substitute the frequency variable",
     "For every proper conjugate-closed analog zeros/poles/gain filter H, the lowpass-to-lowpass, -highpass, -bandpass, -bandstop and bilinear transformations return the filter H(s/wo), H(wo/s), H((s^2 + wo^2)/(s bw)), H(s bw/(s^2 + wo^2)) and H(2 fs (z-1)/(z+1)), with the number of zeros and poles that entails (missing zeros placed at the images of infinity). Filters with more zeros than poles are refused (highpass and bandstop of filters with finite zeros are known not to hold and are recorded as findings).",
     ["inputs"], "all root sets and parameters, default parameters included",
     "Tests transform one or two fixed filters each.",
     [D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs", D + "relative_degree.rs"],
     [m("root mapping, degree completion and gain correction", D + "lp2lp_zpk.rs, lp2hp_zpk.rs, lp2bp_zpk.rs, lp2bs_zpk.rs, bilinear_zpk.rs")],
     "Spec Transform.tla states each law as equality of rational functions at evaluation points; TLC evaluates both sides exactly for every recorded call.")
prop("C14", "Designed filters are stable, real and have the zeros their band demands",
     "Every admissible Butterworth, Chebyshev I or II design has all poles strictly inside the unit circle (digital) or the open left half plane (analog), as many poles as the order (twice the order for bandpass and bandstop), roots closed under conjugation and a positive gain. Zeros that come from infinity lie exactly at -1 (lowpass), +1 (highpass), evenly at both (bandpass) for digital filters, at 0 for analog highpass and bandpass filters.",
     ["inputs", "configurations"], "all kinds, orders, frequencies, bands",
     "Tests look at numbers of fixed designs only.",
     [D + "iirfilter.rs", D + "butter.rs", D + "bilinear_zpk.rs"], [m("prototype pole placement, bilinear map", D + "butter.rs, iirfilter.rs, bilinear_zpk.rs")],
     "TLC evaluates the structural predicate on every recorded design.")
prop("C15", "Convolution and correlation are the exact sums with the documented windows",
     "For all non-empty signals, full convolution is c[k] = sum a[i] b[k-i] of length n + m - 1, same mode is its centred window of the first input's length, valid mode the samples where the shorter signal overlaps the longer one completely. Correlation is convolution with the second input reversed; the order of the arguments matters only as documented.",
     ["inputs", "configurations"], "all lengths and values, all modes, f32 and f64",
     "Tests compare a couple of fixed vectors per mode.",
     [S + "signal/convolve.rs"], [m("FFT product and window slice", S + "signal/convolve.rs: fftconvolve, convolve, correlate")],
     "Spec Convolve.tla; TLC checks algebraic laws on small inputs exhaustively and each recorded result exactly against the sums with an FFT error bound.")
prop("C16", "Fourier resampling reproduces band-limited signals at the new rate",
     "For every signal and every target length, resampling returns that many samples of the trigonometric interpolant of the signal with the frequencies above the smaller of the two Nyquist limits removed; the mean is preserved (both lengths at least two) and resampling an even number of samples to the same or a larger number interpolates them, so the same even length is the identity. The weight of the highest component kept is left open (half or whole) when the smaller length is odd or the signal is shortened, because the library documents that it skips the odd/even distinction.",
     ["inputs"], "all lengths up and down, odd and even, all values",
     "Tests resample one sine up.",
     [S + "signal/resample.rs"], [m("FFT, bin copy, scaled inverse FFT", S + "signal/resample.rs: resample")],
     "Spec Resample.tla defines the interpolant with exact arithmetic and rigorous trigonometric enclosures; TLC checks it on small lengths and judges recorded outputs by projection.")
prop("C17", "Savitzky-Golay coefficients are the least-squares polynomial fit",
     "For every window length (odd or even), polynomial order below it, derivative order and sample spacing, the coefficients (newest sample first) applied to the samples of any polynomial of at most that order give its derivative at the window centre, and are the minimum-norm such coefficients, that is the least-squares fit; derivatives beyond the order give zero coefficients. Orders not below the window length are refused; the accuracy is that of the type for moderate windows and orders (up to 4 for 32-bit and 6 for 64-bit floats).",
     ["inputs", "configurations"], "all windows, orders, derivatives, spacings",
     "Tests compare a few coefficient sets with scipy.",
     [F + "savgol_filter.rs"], [m("least squares on the Vandermonde system", F + "savgol_filter.rs: savgol_coeffs_dyn")],
     "Spec Savgol.tla solves the normal equations exactly in rational arithmetic; TLC checks polynomial reproduction and judges recorded coefficients.")
prop("C18", "Savitzky-Golay smoothing applies the coefficients with nearest-value edges",
     "For every signal and admissible window, order, derivative and spacing, the smoothed signal has the input's length and each sample is the least-squares coefficients applied to the window around it, where positions before the first and after the last sample take the nearest sample's value. Polynomials of at most the order are reproduced away from the edges; signals shorter than the window are handled by the same rule, empty ones give empty output, and even windows or windows less than two longer than the order are refused.",
     ["inputs", "configurations"], "all signals and lengths, windows, orders, derivatives",
     "Tests smooth one fixed signal per configuration.",
     [F + "savgol_filter.rs"], [m("padded iterator windows", F + "savgol_filter.rs: savgol_filter_dyn")],
     "Spec Savgol.tla; TLC recomputes each recorded output exactly.")
prop("C19", "Median and median absolute deviation are exact order statistics",
     "For every sample without NaN, the median is the middle value of the sorted sample (the mean of the two middle ones for even sizes, zero for none) whatever the order, duplicates or signs, and the median absolute deviation is the median of the distances to it; both report the sample size.",
     ["inputs"], "all samples of every size and order, integer and floating types",
     "Tests use a few short samples; selection is a hand-written quickselect with pivot cases.",
     [S + "stats.rs"], [m("quickselect", S + "stats.rs: median, quickselect, median_abs_deviation")],
     "Spec Stats.tla; TLC enumerates all small samples and judges every recorded call exactly.")
prop("C20", "Moments, differences and scores follow their textbook definitions",
     "For every sample, mean, population variance and standard deviation, successive differences and their root mean square, z-scores and median-based modified z-scores equal their definitions up to rounding, with the sample size reported (zero for empty samples; integer means truncate and need a representable sum). Scores come in the order of the data, one per sample.",
     ["inputs"], "all samples of every size, f32 and f64 (integers for the mean)",
     "Tests use a few short samples.",
     [S + "stats.rs"], [m("iterator folds", S + "stats.rs: mean, variance, stdev, lag_diff, rmssd, zscore, mod_zscore")],
     "Spec Stats.tla; exact rational definitions, tolerance from forward error analysis.")
prop("C21", "Autocorrelation, its fast form and fast root mean square agree with their sums",
     "For every signal and lag, autocorrelation is the lagged sum of products of centred values divided by size times variance; the fast 32-bit form returns the variance, centres the signal in place and fills lag products for every requested lag, for any size including ones that are no multiple of the internal tile, refusing sizes that cannot provide the lags. The fast root mean square equals the root of the mean square.",
     ["inputs", "configurations"], "all signals, sizes, lags, skips",
     "Tests use one signal and size.",
     [S + "stats.rs"], [m("tiled loops with remainder", S + "stats.rs: autocorr, autocorr_fast32, rms_fast32")],
     "Spec Stats.tla; TLC recomputes exact sums for every recorded call.")
prop("C22", "Factorials are exact whenever representable",
     "For every integer type and argument, factorial, double factorial and k-step factorial equal the mathematical product n (n-k) (n-2k) ... over its positive factors (one for zero, zero for negative arguments) whenever it fits the type. A step that is not positive is refused.",
     ["inputs"], "all arguments and steps of all integer types",
     "Tests sample a few arguments per type.",
     [S + "special/factorial.rs"], [m("tables and products per type", S + "special/factorial.rs")],
     "Spec Combin.tla; all arguments up to overflow for all types are recorded and judged exactly.")
prop("C23", "Combinations, permutations and partitions are exact whenever representable",
     "For every integer type and arguments, the numbers of combinations, combinations with repetition, permutations and Stirling partitions equal their mathematical values whenever these fit the type (for combinations with repetition also n + k), including the cases k > n, k = 0 and n = 0 and negative arguments, which count nothing. No kinds taken zero times with repetition is left open.",
     ["inputs"], "all argument pairs of all integer types",
     "Tests sample a few pairs.",
     [S + "special/combinatorics.rs"], [m("multiplicative formulas and recurrences", S + "special/combinatorics.rs")],
     "Spec Combin.tla; all 8-bit pairs and wide ranges of the others are recorded and judged exactly.")
prop("C24", "Modified Bessel functions are accurate, even and elementwise on collections",
     "For every finite argument, the modified Bessel function of order zero and its exponentially scaled form are accurate to a few units in the last place of the type, even in the argument, positive, and related by the factor exp(|x|); applied to vectors and arrays they act element by element, keeping length and order.",
     ["inputs"], "all finite arguments not near overflow, f32 and f64, vectors and arrays",
     "Tests evaluate a few points.",
     [S + "special/xsf/i0.rs", S + "special/xsf/chbevl.rs", S + "special/bessel.rs"], [m("two Chebyshev expansions joined at 8", S + "special/xsf/i0.rs")],
     "Spec Bessel.tla sums the power series in arbitrary precision with a rigorous tail bound; TLC judges recorded values.")
prop("C25", "The square wave has the right level, period and duty cycle",
     "For every array of times of any dimension and duty cycle in [0, 1], each element is +1 when the time modulo 2 pi lies in the first duty fraction of the period and -1 otherwise, for negative and large times alike, with the array's shape preserved. In the type's own 2 pi, exact multiples of the period start it (+1) and the switching instant itself belongs to the second part (-1). Duty cycles outside the interval are refused.",
     ["inputs"], "all times (up to rounding of the modulus), duties, shapes, f32 and f64",
     "Tests check a few times.",
     [S + "signal/wave/mod.rs"], [m("modulo and comparison", S + "signal/wave/mod.rs: square")],
     "Spec Square.tla with rigorous enclosures of pi; elements closer to a switching instant than the rounding of the argument reduction are left open, except exact multiples of the type's period, exact switching instants and times in the first period, which need no reduction.")
prop("C26", "Companion matrices carry their polynomial",
     "For every sequence of two or more coefficients with non-zero first one, the companion matrix is square with one row less than there are coefficients, first row -a[i]/a[0], ones just below the diagonal and zeros elsewhere. Data longer than the declared length, empty data and declared lengths below two are refused.",
     ["inputs"], "all coefficient sequences and sizes",
     "One fixed test.",
     [S + "linalg/companion.rs"], [m("row fill and subdiagonal", S + "linalg/companion.rs: companion_dyn")],
     "Spec Companion.tla; TLC checks the characteristic polynomial on small integers and compares recorded matrices.")
prop("C29", "Importing scipy second-order sections keeps every coefficient in place",
     "For every flat sequence of 6 n coefficients in scipy's row order, importing yields n sections whose numerator and denominator are the rows' first and last three coefficients in order, with zero state, so that they filter like the rows' difference equations. Data whose length does not fit the order are refused.",
     ["inputs"], "all coefficient lists and orders",
     "Tests import fixed lists.",
     [D + "sos.rs"], [m("chunked import", D + "sos.rs: Sos::from_scipy_dyn, Sos::new")],
     "Spec Import.tla; every recorded import compared entry by entry.")
prop("C27", "The default no-std build computes what the std build computes",
     "For every operation available in both, the library built in its default configuration without the standard library gives the same outcome as built with it: the same success or refusal, the same shape, and the same values up to rounding of the type.",
     ["configurations", "inputs"], "both feature configurations, all operations they share, all inputs",
     "The test suite runs in one configuration at a time and most numeric tests are compiled only with the standard library.",
     ["sci-rs/Cargo.toml", S + "lib.rs", S + "signal/filter/mod.rs", D + "mod.rs", S + "stats.rs"],
     [m("feature-gated items and libm fallbacks", "sci-rs/Cargo.toml: features alloc, std; cfg attributes throughout")],
     "Spec Config.tla is the agreement relation; the same calls are recorded in two builds and TLC judges each pair.")
prop("C28", "The plotting helper delivers the data, waits for the plot and never panics",
     "For every list of non-empty signals, the plotting helper hands the interpreter a complete script that shows every signal, sample for sample, and its normalised autocorrelation over all lags, keeps the interpreter's output to itself, and returns only after the interpreter has ended once the script was delivered. Whatever the interpreter does (missing, not executable, ends early, stops reading, is killed, reads slowly) the helper returns without panic once the interpreter has ended or stopped listening.",
     ["fault_sequences", "schedules", "inputs"], "all interpreter behaviours and interleavings with a bounded pipe, all signals including non-finite samples",
     "No test calls the helper with an interpreter whose behaviour is controlled.",
     [S + "plot.rs"], [m("spawn, write, close, wait; early returns", S + "plot.rs: python_plot")],
     "Spec Plot.tla is a two-process state machine (caller, interpreter, bounded pipe) model-checked for safety and liveness; recorded runs against stand-in interpreters are checked as behaviours of it by tracking the set of possible states.")
prop("C30", "A call's result depends only on its arguments, not on earlier calls",
     "Every operation of the crate gives the same answer (the same values, the same refusal) to the same arguments, in whatever order and however often calls are made and whatever other calls were made before in the same process; no operation keeps hidden state between calls. The only state carried from call to call is the memory inside the sections the caller passes in.",
     ["histories"], "all sequences of calls of the crate's operations within one process",
     "Each test makes a call once, with nothing before it that could have left something behind.",
     [F + "sosfilt.rs", F + "savgol_filter.rs", D + "iirfilter.rs", S + "special/combinatorics.rs", S + "stats.rs"],
     [m("pure functions; state only in the caller's sections", "whole crate: no statics, no caches")],
     "Spec Pure.tla remembers the answers given and allows a repeated call only its remembered answer; TLC checks over every keying of a remembering implementation that the replayed histories expose it exactly when it can ever be wrong. About 2500 calls that resemble one another (same arguments in another precision, one argument changed a little, same length with other contents at the same address, refusals) are made alone in a fresh process and then in tours that put every ordered pair of a family next to each other, at random among all others, over and over and from eight threads at once; the calls of all other drivers are recorded fresh and twice, in opposite orders, in a long process. TLC judges each call's answers.")
prop("C31", "Chebyshev analog prototypes are the textbook ones with the edge at 1",
     "For every order and every positive ripple or attenuation in decibels, the Chebyshev I and II prototype functions return exactly the poles, zeros and gain of the analog lowpass prototype with its edge at angular frequency 1: as many poles as the order, strictly in the left half plane, conjugate in pairs; no zeros for type I, purely imaginary zeros for type II, as many as poles for even order and one fewer for odd order; gain at zero frequency one for odd order and for type II, down by the ripple for even-order type I. Order zero gives no roots, with gain 10^(-rp/20) for type I and 1 for type II.",
     ["inputs"], "all orders from zero, all positive decibel values, f32 and f64",
     "Tests compare two fixed orders with printed values.",
     [D + "iirfilter.rs"], [m("poles on an ellipse, zeros at the reciprocal Chebyshev nodes", D + "iirfilter.rs: cheb1ap_dyn, cheb2ap_dyn")],
     "Spec Magnitude.tla builds the prototypes exactly; TLC checks in MCDesign that they satisfy the magnitude law and stability through the whole pipeline, and compares every recorded prototype root by root.")
prop("C32", "Designing a filter and applying it gives the textbook filter's response",
     "For every admissible digital Butterworth, Chebyshev I or II request whose output is second-order sections, filtering a signal with the sections as designed (collected, lazily, sample by sample, in pieces, by the fast 32-bit path, or after passing the sections on as flat rows) gives the response, from rest, of the textbook filter: the analog prototype taken through the band transformation at the pre-warped critical frequencies and the bilinear map, run as one difference equation. Zero-phase filtering with them gives that filter run forward and backward over the reflected signal (3 (p + 1) samples at each end, p the number of poles) from the settled state of its first value. (Chebyshev II highpass and bandstop of order two or more are known to differ and are recorded as findings of C09.)",
     ["inputs", "configurations"], "all requests, signals and lengths, f32 and f64",
     "Tests check stages by themselves against printed numbers; no test runs a designed filter of each kind and band over a signal against an independent response.",
     [D + "iirfilter.rs", D + "butter.rs", D + "zpk2sos.rs", D + "sos.rs", F + "sosfilt.rs", F + "sosfiltfilt.rs"],
     [m("prototype, transformation, bilinear map, pairing, cascade", D + "iirfilter.rs: iirfilter_dyn; zpk2sos.rs; " + F + "sosfilt.rs, sosfiltfilt.rs")],
     "Spec Pipeline.tla composes the exact prototype, transformations and expansion into one difference equation with its zero-phase use; TLC checks exhaustively over small designs and signals that any cut into sections run as the cascade machine of Sos.tla delivers it, then runs it on every recorded request and signal and compares the outputs of all entry points.")
prop("C33", "Streaming takes no heap, the rest only what its data take; nothing is kept",
     "The operations named *_st, the per-sample filter, the fast 32-bit functions, the streaming statistics (mean, variance, stdev, autocorr, lag_diff, rmssd, zscore), the scalar Bessel functions and the integer functions allocate nothing from the heap when they succeed, for any argument, length and section count, from the first call on. Every other operation keeps what it has allocated at any time within a fixed multiple of its data (arguments, answer, and the tables its problem defines) plus a constant, whatever an iterator honestly says about its possible length. No operation keeps memory after its answer is dropped, and none does when it refuses or when the caller's iterator panics midway. No operation writes outside the slices and blocks it was handed.",
     ["inputs"], "all operations, argument sizes, section counts, iterators with any honest size hint, refusals and panicking iterators",
     "No test observes the heap.",
     ["README.md", F + "sosfilt.rs", F + "savgol_filter.rs", F + "ext.rs", F + "lfilter_zi.rs", S + "stats.rs", S + "signal/convolve.rs"],
     [m("iterator adaptors, caller-provided slices, reservations", F + "sosfilt.rs; " + F + "savgol_filter.rs; " + S + "stats.rs")],
     "Spec Heap.tla is the heap as a state machine of blocks with the promise per kind of operation; TLC checks that an operation that reserves what is certain and grows by doubling keeps the promise under every honest hint, and runs the recorded allocation log of every call through the machine and its books against the promise. Guard zones around every block and around slices show writes that go beside.")
prop("C34", "Lazy operations answer each sample before they ask for the next",
     "The iterator returned by the lazy filter (sosfilt_st) has read exactly as many samples as it has given answers (and skipped) at any time, and reads none when it is made; the lag difference reads at most one sample further. So both work on endless sources and inside feedback loops, leave the rest of a shared source untouched when the consumer stops, and have delivered every earlier answer when the source panics. However the answers are asked for (one by one, skipping some, all the rest, only counted), they are the same ones, and the sections' memory afterwards is that after the samples answered or skipped. What these iterators and those of the z-scores say about their remaining length is true at every moment.",
     ["schedules", "inputs", "histories"], "all interleavings of reading and asking, all ways of asking, endless, finite and failing sources, any honest size hint, f32 and f64",
     "Tests collect whole finite slices, so nothing about the order of reading and answering is observed.",
     [F + "sosfilt.rs", S + "stats.rs"],
     [m("lazy iterator adaptors over the caller's iterator", F + "sosfilt.rs: sosfilt_st; " + S + "stats.rs: lag_diff, zscore, mod_zscore")],
     "Spec Stream.tla is a state machine of source, operation and consumer with the reading discipline and the exact answers; TLC checks that lazy implementations (one handle, two handles, a window) keep the discipline and answer every question against every source and consumer, and replays recorded sessions with a recording source event by event.",
     [m("zi0, zi1", D + "sos.rs: memory advanced per answered sample")])
