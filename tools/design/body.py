D = {}
D['C01'] = ("Records are synthesised as tone + harmonics 2..H + one spur + Gaussian noise, each with a drawn level; the monitor converts these levels into the metrics they imply and compares. For harmonics that alias onto the fundamental or DC, the expectation leaves them out of THD and noise.",
 "N from 64 to 4096 (quick; up to 16384 thorough) of every parity class; all windows; every form of full-scale argument; harmonic orders to 10. Components are placed at least two main lobes apart unless a collision is the point of the case.",
 "tests use one length (power of two) and tones whose harmonics do not collide.")
D['C02'] = ("Baseline and changed record (gain, offset, negation, time reversal, relabelled rate, circular shift) are analysed; metrics are compared to 1e-6 dB, absolute ones after adding the known gain.",
 "All windows/options; one or several runs; coherent or not; quantised or not. Gain 1e-3..1e3.",
 "a test has one record; invariance is a relation between executions.")
D['C03'] = ("Injected noise variance (1e-6.5..1e-2 of full scale) gives the expected floor/NSD/SNR; tolerance from the number of noise bins and the estimator's own variance. Identities SNR = signal − floor and floor ↔ NSD are exact. `assumed_sig_pwr` must replace the measured power.",
 "Three estimation methods, OSR 1..16, 1..8 runs, every window. The median estimator's constant agrees with the MATLAB reference.",
 "needs ensembles of noise and several estimator/option combinations.")
D['C04'] = ("A strong tone is put far outside, just outside and just inside the band edge or the cutoff; the monitor requires unchanged metrics outside, a drop of the right size inside.",
 "OSR integer or fractional 1..32; cutoff 0..20 % of the band; the edge bin itself is judged by definition, including a strongest tone placed in the last in-band bin.",
 "tests check one OSR with one record and only that a value is returned.")
D['C05'] = ("Power average: equals mean of the individual spectra. Coherent average: tone kept, noise lowered by 10·log10(M) within statistics, start phases irrelevant. Layout/order: identical results.",
 "2–12 runs, different phases/amplitudes/noise; both layouts. Coherent oracle uses the rectangular window only, see known findings; band limit, cutoff and level options are combined with coherent averaging, harmonic tolerances are derived from the noise.",
 "tests use identical or few runs, one layout.")
D['C06'] = ("`lib/refspec.py` recomputes the spectrum from the record and every metric from the spectrum by definition, with the requested side bins, harmonic count, band and noise method.",
 "Every option combination; lengths of all parities; multi-run. Automatic tone width is recomputed from the window's main lobe. Cases in which the band leaves nothing are counted as skipped.",
 "tests cannot enumerate option combinations and have no independent reference.")
D['C07'] = ("Sum of the reported spectrum = mean square of the DC-free record; on-bin tone = its dBFS; axis; aliases select the same window.",
 "Arbitrary records incl. steps, random walks; all windows.",
 "conservation over arbitrary records/windows.")
D['C08'] = ("The same record/options are sent through each entry point, plotted and unplotted; numbers must be identical (1e-8).",
 "All drawing switches, given axes or current axes; tones near DC and Nyquist.",
 "tests look at one entry point at a time.")
D['C09'] = ("Returned bin is checked for coprimality, range and nearest-ness by brute force; folding by generating the samples of tone and alias and comparing them.",
 "N 4..65536, targets to several Nyquist zones, targets at the edge of the search radius.",
 "exhaustive search over bins is needed to claim 'nearest'.")
D['C10'] = ("Definitions written out in the monitor; round trips; scalar and array forms.",
 "Values over 12 decades; zero, negative where defined; fractional oversampling ratios between 1 and 2.",
 "fixed examples only; a unit slip at an untested argument stays unseen.")
D['C11'] = ("True parameters vs returned ones with a Cramér–Rao-based bound widened for one refinement iteration (the documented default); residual identity; perturbation test (no nearby sine fits better by more than rounding, when the fit converged).",
 "Frequency 0.5 bin from DC to 0.5 bin from Nyquist; N 32..8192; 1–8 channels. Low-cycle records are judged on consistency only, except very long records of few periods, which are judged on truth.",
 "truth depends on phase/frequency/noise continuum.")
D['C12'] = ("The network is solved with a nodal capacitance matrix (independent of the recursive formula in the package).",
 "1–16 bits, any bridge/parasitic, no bridge = infinite coupling; positions without a capacitor.",
 "tests use two or three hand-made arrays.")
D['C13'] = ("An independent redundant SAR (`lib/sarsim.py`) produces bits from a sine with known weights; returned weights are compared after scale normalisation; metamorphic relations; the residual's SNR/ENOB is recomputed.",
 "6–13 bits, radix 1.7–2, mismatch to 3 %; only frequencies with many distinct phases (`gen.rich_phase`), otherwise the matrix is rank-deficient and weights are not identifiable.",
 "identifiability and the invariances need populations of converters.")
D['C14'] = ("Same bits with the starting frequency absent, zero or off by ≤0.3 bin; refined frequency compared with truth (in fractions of a bin), final SNR must not be lower than at the start.",
 "Automatic search is judged for tones < 0.16·fs only: above, a 3rd harmonic of the raw bits may win the coarse search, which the docstring leaves open. With several records the first one is kept the longest: the joint refinement starts from it and may diverge when a longer record follows, which the package does not promise to handle.",
 "convergence is a property of trajectories over many starts.")
D['C15'] = ("Stuck / duplicated / complemented columns are inserted in healthy matrices; weights of the others must equal those without them; batches are compared with the known common weights, permuted batches with each other.",
 "2–5 records of different length/frequency/amplitude/offset.",
 "rank-deficiency combinations are not in the tests.")
D['C16'] = ("Reference loop decides bits sample by sample; quantisation error, saturation, monotonicity, equivariance; noise is judged on its distribution (moments, correlation between bits/samples).",
 "Scalars, vectors, matrices; 1–16 bits; arbitrary weights. Inputs exactly on a decision level are only generated where representable exactly.",
 "tests use ideal weights and a ramp.")
D['C17'] = ("Sums and ratios of ideal weights; spread per bit over an ensemble of seeds vs the square-root law.",
 "2–16 bits; sigma to 5 %; 200+ draws per ensemble.",
 "a statistical law needs ensembles.")
D['C18'] = ("Index identity for split/recombine; synthesised interleaved sines with known per-channel offset/gain/skew vs extraction.",
 "1–16 channels, tone over the whole Nyquist range, skew to a few % of a sample.",
 "tests use 2–4 channels and one low tone.")
D['C19'] = ("Synthesised record's DFT is compared at each predicted spur; calibrated record is compared with the record of an ideal converter.",
 "Multi-tone only below fs/(2M), where per-channel interpolation is defined. Each offset DFT index is listed separately by the predictor (accepted).",
 "link between prediction and an actual record is never tested.")
D['C20'] = ("Band-limited periodic records delayed analytically; polynomials for the Farrow filter; algebraic laws.",
 "Odd/even N; delays of both signs; output length for more taps than samples is not judged.",
 "sign and half-band-bin errors hide on symmetric examples.")
D['C21'] = ("Each impairment's law is written out and compared with output − clean tone: deterministic ones sample by sample, random ones on distribution.",
 "22 impairments × built-in/arbitrary input.",
 "tests only check that the output differs from the input.")
D['C22'] = ("Own DFT with the requested bands; algebraic laws (complement, idempotence, linearity).",
 "1–5 bands including DC and the top bin; 1–6 columns.",
 "edge bins and odd lengths.")
D['C23'] = ("Own in-band sums per OSR; monotonicity; white-noise slope.",
 "Unsorted/repeated ratios. The 3.01 dB constant is accepted as a known finding and applied to both sides; everything relative is judged.",
 "tests use default ratios and look at the keys.")
D['C24'] = ("Own quadrature of |NTF|² on a fine grid.",
 "FIR and IIR, any band.",
 "one NTF in the tests.")
D['C25'] = ("Counts and sums re-done in plain Python integers/floats with exact rational comparison at the range limits.",
 "Bit matrices of bool/int8..int64/float, weights incl. negative, fractional, tiny trims. Ratio exactly at the 'is LSB' limit is skipped.",
 "limits and dtypes not in tests.")
D['C26'] = ("Own histogram arithmetic; converters with known transition levels.",
 "Both endpoint rules, explicit and inferred ranges, missing codes, single-bit converters, large code offsets, almost-integer codes.",
 "tests use near-ideal ramps.")
D['C27'] = ("Converters with known widths sampled by long coherent sines; tolerance from counts per code.",
 "4–9 bits; codes or voltages (over-range voltages for unipolar and scaled ones); clip shares; exact −1 for a missing code. The DNL scaling n/(n−2) is accepted, the label shift is a known finding.",
 "truth needs simulated converters.")
D['C28'] = ("Tones with known harmonics; sum of parts; inner products.",
 "Phase is reported as lag (accepted). For non-coherent records the bound includes the leakage caused by the one-step frequency estimate.",
 "tests check shapes.")
D['C29'] = ("Each sample is re-grouped by the monitor; counts, mean, rms; AM/PM/base separation vs injected strengths.",
 "Bins 8..512, sparse and partly empty groups, any value range. AM and PM together with base noise only identify their difference; judged accordingly.",
 "membership and conservation over all samples.")
D['C30'] = ("Error record = record − own least-squares sine at the reported frequency; moments, autocorrelation, spectra, density integrals, KL divergence re-computed.",
 "Gaussian, uniform, coloured, modulated, hysteretic, glitchy errors. Densities of bounded errors lose the area beyond the plotted range; bound widened accordingly. Off-bin tones, display units and every key that must not depend on plotting are included.",
 "tests look at keys and finiteness.")
D['C31'] = ("Sine through a known polynomial, truth converted to coefficients relative to the linear term; tolerance includes the distance of the reported sine from the best sine.",
 "Orders 2–5, offset, any phase, off-bin tones, the warning above order 10. Plain lists are not accepted by this function (documented as array).",
 "truth over continuous coefficients.")
D['C32'] = ("Sanitizer around every public entry point in `lib/api.py`: digests of arguments, figure list, axes contents, RNG state, numpy error state, rcParams, cwd, directory content; read-only arrays; repeat and interleave; mutate results and call again.",
 "About 75 entry points × argument sets. Results may alias keyword arrays the caller passed (accepted).",
 "side effects are invisible to value assertions.")
D['C33'] = ("Same values in ≥12 storage forms through every entry point; results compared structurally.",
 "float32 compared at 1e-4 on values exactly representable.",
 "tests use float64.")
D['C34'] = ("Histories of tool invocations in a scratch tree as an unprivileged user; before/after tree digests, audit-hook log of every path touched, injected ENOSPC/EACCES at random operations, exit codes, status vs own tree comparison.",
 "500–3000 histories of 1–6 operations, destinations given absolute, relative or from the home directory, names next to the all/developer switches. Destructive calls cannot reach real files: uid without rights outside the scratch directory.",
 "histories and faults.")
D['C35'] = ("Artists of every figure are read back: curves vs computed arrays, markers vs harmonic/spur frequencies, every printed number parsed and compared at the digits shown, panels of dashboards vs the separate analyses, saved file.",
 "Colours (except the three overflow groups), sizes and fonts are not judged; axis limits only where the plot lays them out from the data, so that all of it stays visible. The activity plot, which deliberately shows 40–60 % only, is exempt.",
 "tests check that a file exists.")
D['C36'] = ("Sound data must pass silently; the same data with exactly one planted defect must raise/warn.",
 "Defect at a random place, many dtypes.",
 "position and dtype of the defect.")
D['C37'] = ("A table of every public entry point with its documented options, defaults and order; result with the option left out = result with the default by name = result by position; changing an option must change the result where it is documented to; drawing and progress options must not; defaults computed from other arguments are spelled out.",
 "About 55 functions and 16 signal-chain methods, each with every option, fresh random records. Options with a data-dependent effect are retried on fresh records before they count as ignored.",
 "a swapped forward or a changed default only shows when both call forms are compared.")
D['C38'] = ("Record minus the analysis' error record = the sine of a separate public fit with the same start frequency, iteration limit and tolerance; reported fit = that fit; iteration count, convergence flag, warning and frozen frequency are invariants of the fit state; the fixed-frequency fit is compared with the monitor's own least squares.",
 "Off-bin tones with distortion and noise, eleven analyses, start error up to 0.45 bin, limits 0..40, tolerance 1e-12..1e-3.",
 "coherent test tones hide every one of these settings.")

D['C39'] = ("For every guarded argument a pair of calls: the value just outside the usable range must raise a value error and return nothing, the value just inside must return; doubtful calls must warn, ordinary ones must not.",
 "About thirty entry points, random data, 30 rounds quick and 250 thorough (a few hundred argument sets per round).",
 "a guard that is dropped or off by one changes no ordinary result.")

D['C40'] = ("Each example is copied out with its neighbours and run in an unprivileged process from an unrelated directory. Every public function is wrapped before the script starts: arguments compared before and after, the call repeated without drawing and the results compared number by number, open figures counted, documented relations between the metrics evaluated. An audit hook records and refuses writes outside the copy; announced paths must exist, saved figures must decode and not be blank.",
 "57 of the 64 examples in the quick tier (the seven slowest, 10–110 s each, run in the thorough tier only); the first six calls of each function per example are repeated. What the example prints is not judged.",
 "no test runs an example; they are the largest realistic programs in the repository.")
