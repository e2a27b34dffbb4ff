"""Property definitions, part A (spectrum, fundamentals, calibration)."""
SRC = "python/src/adctoolbox/"


def P(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique, state=None):
    a = {"files": [SRC + f for f in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = state
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a, "_note": level_note, "_tech": technique}


SPEC = ["spectrum/compute_spectrum.py", "spectrum/_harmonics.py", "spectrum/_exclude_bins.py", "spectrum/_estimate_noise_power.py",
        "spectrum/_locate_fundamental.py", "spectrum/_bin_ranges.py", "spectrum/_prepare_fft_input.py", "spectrum/_spectrum_averaging.py",
        "spectrum/_window.py", "spectrum/_side_bin_auto.py", "spectrum/_align_spectrum_phase.py"]

PROPS = [
    P("C01", "Spectrum metrics recover the known composition of a record",
      "For a record built from a tone, harmonics, a spur and noise of known levels, the spectrum analysis reports the signal power, SNDR, SNR, THD, SFDR, ENOB and individual harmonic levels that those components imply. "
      "This includes harmonics that alias past half the sampling rate, records of odd or prime length, and harmonics that alias onto the fundamental or onto DC, which must not be counted twice or subtracted from the signal.",
      ["inputs", "configurations"], "every record length, window, tone bin, harmonic/spur/noise level, full-scale form and number of harmonics",
      "the tests check a handful of fixed tones, mostly power-of-two lengths and Hann windows, and mostly that keys exist or values are plausible",
      SPEC, [("metric computation", "spectrum/compute_spectrum.py"), ("harmonic placement", "spectrum/_harmonics.py"), ("noise power", "spectrum/_estimate_noise_power.py")],
      ["analyze_spectrum / compute_spectrum return value"],
      "Finite random and edge-directed workload; tolerances from the statistics of the injected noise and the window's known leakage.",
      "reference-model monitor: known synthetic composition against the reported metrics"),
    P("C02", "Spectrum metrics do not depend on gain, offset, polarity, time reversal or rate",
      "Multiplying a record by a non-zero gain (with automatic full scale, or together with the given full scale), adding a DC offset, negating it, reversing it in time, or relabelling the sampling rate leaves every relative metric of the spectrum analysis unchanged. "
      "With a fixed full scale a gain moves the absolute levels by exactly that gain in dB, and with a rectangular window a circular shift of the record changes nothing.",
      ["inputs", "configurations"], "every record, option combination and change of units",
      "each test analyses one record in one unit system; no test relates two analyses of the same data",
      SPEC, [("full-scale normalisation", "spectrum/_prepare_fft_input.py"), ("metric computation", "spectrum/compute_spectrum.py")],
      ["compute_spectrum return value before and after the change"],
      "Metamorphic relations on random ADC-like records; coherent averaging is only judged for the changes under which it is mathematically invariant.",
      "metamorphic monitor: same record in different units"),
    P("C03", "Noise floor, NSD and SNR equal the physical noise in the record",
      "With Gaussian noise of known variance in the record, the reported noise floor, noise spectral density and SNR equal that noise referred to full scale and to the analysed bandwidth, for every noise-estimation method, oversampling ratio, run count and window. "
      "The reported SNR, signal power and noise floor are mutually consistent, and an assumed signal power replaces the measured one in every metric that refers to it.",
      ["inputs", "configurations"], "every noise level, sampling rate, oversampling ratio, number of averaged runs, estimation method and window",
      "existing tests compare one noise level with loose bounds and never cross-check the three estimation methods against injected power",
      SPEC, [("noise power estimators", "spectrum/_estimate_noise_power.py"), ("NSD", "spectrum/compute_spectrum.py")],
      ["snr_dbc, noise_floor_dbfs, nsd_dbfs_hz of the result"],
      "Statistical tolerances at many sigma of the estimator; bins used by tone and harmonics are kept clear by construction.",
      "reference-model monitor: injected noise variance against reported figures"),
    P("C04", "Only content inside the analysed band affects band-limited metrics",
      "With an oversampling ratio or a low-frequency cutoff, a tone added outside the analysed band leaves SNDR, SNR, SFDR, THD and noise floor unchanged, while the same tone inside the band is counted. "
      "The band edge is the sampling rate divided by twice the oversampling ratio; bins below the cutoff frequency are excluded, and the fundamental is searched inside the band only.",
      ["inputs", "configurations"], "every record length, oversampling ratio (integer or fractional), cutoff and position of the interferer including just inside and just outside the edges",
      "tests exercise one or two OSR values on clean tones and never place energy at the band edges",
      ["spectrum/compute_spectrum.py", "spectrum/_bin_ranges.py", "spectrum/_exclude_bins.py", "spectrum/_locate_fundamental.py"],
      [("band edge", "spectrum/_bin_ranges.py")], ["metrics with and without the interferer"],
      "Edge-directed placement; cutoffs landing exactly on a bin are only used where the bin frequency is exact in floating point.",
      "metamorphic monitor with interferer injection at band edges"),
    P("C05", "Averaging several runs is layout- and order-independent and improves noise only",
      "Power averaging of several runs gives the mean of the individual power spectra, coherent averaging with a rectangular window removes start-phase differences, keeps the tone level and lowers the uncorrelated noise, and a single run gives the same answer either way. "
      "The result does not depend on the order of the runs or on whether runs are rows or columns, and a three-dimensional input is refused.",
      ["inputs", "configurations", "histories"], "every number, order, start phase, amplitude and noise of the runs and every array layout",
      "tests average identical or very similar runs and do not permute or re-lay them",
      ["spectrum/_spectrum_averaging.py", "spectrum/_align_spectrum_phase.py", "spectrum/_prepare_fft_input.py", "spectrum/compute_spectrum.py"],
      [("power and coherent averaging", "spectrum/_spectrum_averaging.py"), ("phase alignment", "spectrum/_align_spectrum_phase.py")],
      ["averaged spectrum and metrics"],
      "Known finding: coherent averaging with a non-rectangular window under-reports the tone; see DESIGN.md.",
      "reference-model monitor plus order/layout metamorphic relations"),
    P("C06", "Every reported metric follows its definition over the reported spectrum",
      "The reported spectrum is the windowed, scaled spectrum of the record, and the reported signal power, SNDR, SNR, SFDR, THD, harmonic levels, ENOB, noise floor and NSD are exactly those obtained by applying their definitions to that spectrum with the requested side bins, harmonic count, band and noise method. "
      "The reported tone is the strongest admissible peak and its frequency is refined to the true one.",
      ["inputs", "configurations"], "every record and every combination of window, side bins, harmonic count, oversampling ratio, noise method, averaging and assumed power",
      "option combinations multiply to thousands; the tests fix nearly all of them",
      SPEC, [("metric computation", "spectrum/compute_spectrum.py")], ["result['metrics'] and result['plot_data']"],
      "Independent re-implementation of the definitions; ties and rounding-ambiguous bins are avoided by construction.",
      "reference-model monitor: independent recomputation of all metrics"),
    P("C07", "Spectra conserve power and read true dBFS through every window",
      "The power in the reported spectrum equals the mean-square value of the DC-free record referred to full scale for every window, and an on-bin tone reads its true level in dBFS. "
      "The frequency axis spans zero to half the sampling rate in steps of the rate over the record length, and window names and aliases select the same window.",
      ["inputs", "configurations"], "every record shape (tones, steps, ramps, random walks), length and window",
      "tests check a full-scale sine through a few windows only",
      SPEC, [("window scaling", "spectrum/_window.py"), ("spectrum scaling", "spectrum/_spectrum_averaging.py")], ["power spectrum, frequency axis"],
      "Conservation law evaluated on arbitrary records.", "conservation-law monitor (Parseval) and calibration-tone reference"),
    P("C08", "All spectrum entry points report the same numbers, with or without plotting",
      "The full analysis, the quick SNDR, the alternate-style plot, the polar analysis and the legacy wrapper report identical metrics for identical data and options. "
      "Requesting a plot, choosing what to draw, or passing an axes never changes a reported number.",
      ["inputs", "configurations"], "every record, option combination and entry point",
      "each entry point is tested separately on its own data",
      SPEC + ["spectrum/analyze_spectrum.py", "spectrum/quick_sndr.py", "spectrum/plot_spectrum.py", "spectrum/plot_spectrum_virtuoso.py", "spectrum/analyze_spectrum_polar.py", "aout/__init__.py"],
      [("entry points", "spectrum/__init__.py"), ("legacy wrapper", "aout/__init__.py")], ["return values of each entry point"],
      "Differential comparison of the public entry points.", "differential monitor across entry points"),
    P("C09", "Frequency planning gives coherent bins and correct Nyquist folding",
      "The coherent-frequency search returns a bin that shares no factor with the record length, lies in the permitted range, is the nearest such bin to the request, and returns the exactly matching frequency; it fails loudly if no such bin exists. "
      "Folding a frequency or a bin gives the alias in the first Nyquist zone, so that a tone and its alias produce identical samples up to sign.",
      ["inputs"], "every record length, sampling rate and target from DC through many Nyquist zones, negative frequencies included",
      "tests cover a few round numbers; the number-theoretic guarantee is over all lengths",
      ["fundamentals/frequency.py"], [("coherent search", "fundamentals/frequency.py"), ("folding", "fundamentals/frequency.py")], ["returned frequency and bin"],
      "Exhaustive nearest-bin search as the reference on each sampled length.", "reference-model monitor (brute-force search, physical sampling)"),
    P("C10", "Unit conversions and figures of merit match their definitions",
      "Every unit conversion is the exact inverse of its counterpart and matches the physical definition (dB, dBm, rms, peak-to-peak, LSB, bin/frequency, SNR/NSD, SNR/ENOB), for scalars and arrays alike. "
      "The Walden and Schreier figures of merit and the noise and jitter limits equal their textbook formulas.",
      ["inputs"], "every finite argument over many decades and both scalar and array form",
      "tests check single values, often the same formula",
      ["fundamentals/units.py", "fundamentals/metrics.py", "fundamentals/snr_nsd.py", "fundamentals/frequency.py"],
      [("conversions", "fundamentals/units.py"), ("figures of merit", "fundamentals/metrics.py"), ("SNR/NSD", "fundamentals/snr_nsd.py")], ["returned numbers"],
      "Independent formulas on log-uniform arguments.", "reference-model and round-trip monitor"),
    P("C11", "Sine fitting recovers the true sine and is a least-squares fit",
      "Fitting a sine to a noisy record returns the true frequency, amplitude, offset and phase within the noise-limited accuracy, whether or not the tone falls on a bin. "
      "The returned residual is the record minus the returned curve, no nearby sine fits better, columns of a matrix are fitted independently, and the frequency estimate agrees with the fit.",
      ["inputs"], "every amplitude, offset, phase, frequency, length and noise level",
      "tests fit a few clean sines at comfortable frequencies",
      ["fundamentals/fit_sine_4param.py", "fundamentals/frequency.py"], [("four-parameter fit", "fundamentals/fit_sine_4param.py")], ["fit result fields"],
      "Statistical accuracy bounds (several times the Cramer-Rao limit) plus local-optimality perturbation.", "reference-model monitor and optimality (perturbation) monitor"),
    P("C12", "Capacitor-array weights equal the circuit solution",
      "For any array of bit, bridge and parasitic capacitors, the computed bit weights and total capacitance equal those of the physical network solved by charge conservation. "
      "Scaling all capacitors leaves the weights unchanged, and inconsistent lengths are refused.",
      ["inputs"], "every array size, bridge position and parasitic value", "tests use a few textbook arrays",
      ["fundamentals/convert_cap_to_weight.py"], [("capacitor to weight", "fundamentals/convert_cap_to_weight.py")], ["returned weights and total"],
      "Nodal matrix solution as independent reference.", "reference-model monitor (nodal circuit solver)"),
    P("C13", "Weight calibration at a known frequency recovers the true bit weights",
      "Given the output bits of a redundant converter driven by a sine of known frequency, calibration returns weights proportional to the true ones to within a fraction of the last bit, with the amplitude of the fitted sine normalised to one and the residual orthogonal to the bits. "
      "The weights follow a permutation of the bits, do not change when bits are complemented, columns rescaled or the matrix transposed, harmonics listed as known distortion do not corrupt them, and the reported SNR and ENOB are those of the returned residual.",
      ["inputs", "configurations"], "every weight set, bit count, record length, frequency, amplitude, offset and start phase that exercises all bits",
      "tests calibrate a few fixed converters and accept loose ENOB thresholds",
      ["calibration/calibrate_weight_sine.py", "calibration/_lstsq_solver.py", "calibration/_prepare_input.py", "calibration/_post_process.py", "calibration/_scale_columns_for_conditioning.py", "calibration/calibrate_weight_sine_lite.py"],
      [("least-squares solve", "calibration/_lstsq_solver.py"), ("post-processing", "calibration/_post_process.py")], ["calibration result fields"],
      "Independent converter model; frequencies whose phases repeat after few samples are excluded because they do not determine the weights.",
      "reference-model monitor with an independent converter, optimality and symmetry monitors"),
    P("C14", "Weight calibration finds an unknown or slightly wrong input frequency",
      "With refinement requested and a starting frequency within about a third of a bin, or with no frequency given for a tone below a sixth of the sampling rate, calibration converges to the true frequency of every record and to the true weights, and ends with a better SNR than at the start. "
      "Without refinement a given frequency is used unchanged.",
      ["inputs", "configurations"], "every non-coherent frequency, start phase, starting error, record count, length and harmonic count",
      "tests start at the exact frequency or accept any ENOB improvement",
      ["calibration/_estimate_frequencies.py", "calibration/_lstsq_solver.py", "calibration/calibrate_weight_sine.py"],
      [("frequency refinement", "calibration/_lstsq_solver.py"), ("coarse estimate", "calibration/_estimate_frequencies.py")], ["refined_frequency, weight, snr_db"],
      "Automatic mode is judged only where the package documents that its coarse estimate works (tone well below a quarter of the rate).",
      "reference-model monitor on refinement trajectories"),
    P("C15", "Calibration copes with stuck or duplicated bits and combines records",
      "A bit that never toggles gets weight zero, bits that always move together share their combined weight in the nominal ratio, and the remaining bits keep the weights they have without them. "
      "Several records of different frequency, amplitude, offset and length share one set of weights, each with its own amplitude and offset, independent of the order of the records, and each record's signal, ideal, error, SNR and ENOB are reported.",
      ["inputs", "configurations"], "every position and number of stuck, duplicated or complemented bits and every batch of records",
      "tests include one rank-deficient example and one batch",
      ["calibration/_patch_rank_deficiency.py", "calibration/_prepare_input.py", "calibration/_post_process.py", "calibration/_lstsq_solver.py"],
      [("rank repair", "calibration/_patch_rank_deficiency.py"), ("recovery", "calibration/_post_process.py")], ["calibration result fields"],
      "Healthy-subset calibration of the same bits as the reference.", "differential and reference-model monitor"),
]
