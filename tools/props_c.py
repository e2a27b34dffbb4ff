"""Property definitions, part C (bit-level diagnostics, linearity, error analyses)."""
from props_a import P

PROPS = [
    P("C25", "Bit-level diagnostics count exactly what the bit matrix and weights contain",
      "Bit activity is the percentage of ones per column; the overflow diagnostic reports, for each segment of trailing bits, the observed lowest and highest residue and the shares of samples at or beyond its range; the radix report gives successive weight ratios, the effective resolution and the integer scale of the weights; residual scatter uses the weighted sums of the remaining bits; and the resolution sweep gives the ENOB of each leading subset of bits. "
      "A common factor on the weights leaves every relative figure unchanged, and plotting, storage type or the compatibility names change no value.",
      ["inputs", "configurations"], "every bit matrix (including stuck bits and boolean or narrow integer storage) and every weight list (redundant, fractional, negative, with tiny trims)",
      "tests use one ideal binary converter and mostly check shapes",
      ["dout/analyze_bit_activity.py", "dout/analyze_overflow.py", "dout/analyze_weight_radix.py", "dout/analyze_enob_sweep.py", "dout/plot_residual_scatter.py", "dout/__init__.py"],
      [("bit activity", "dout/analyze_bit_activity.py"), ("segment residues", "dout/analyze_overflow.py"), ("radix and resolution", "dout/analyze_weight_radix.py"), ("resolution sweep", "dout/analyze_enob_sweep.py")],
      ["returned values, plotted scatter points"], "Weights whose spread sits on the tiny-trim threshold are left out.", "reference-model monitor over random bit matrices and weights"),
    P("C26", "Ramp linearity follows the code histogram",
      "DNL from a ramp is each code's share of hits relative to the mean of the judged codes less one, INL is its running sum with the chosen endpoint rule removed, and codes without hits inside the range are listed as missing with a DNL of minus one. "
      "For a converter with known transition levels the results equal its true code widths; the order of samples, a common code offset and the storage type change nothing; the reported extremes are those of the arrays; unusable inputs are refused.",
      ["inputs", "configurations"], "every code histogram, code range, endpoint rule, clipping choice, sample order and storage type",
      "tests use a few fixed ramps",
      ["aout/compute_inl_from_ramp.py", "aout/analyze_inl_from_ramp.py", "aout/plot_dnl_inl.py"], [("histogram and endpoint rule", "aout/compute_inl_from_ramp.py")],
      ["returned dictionary, plotted curves"], "Independent histogram recomputation; bounds from ramp resolution for known transitions.", "reference-model monitor (independent histogram, simulated converters)"),
    P("C27", "Sine-histogram linearity recovers the true code widths",
      "From a sine record through a converter with known unequal code widths, the histogram method returns those widths as DNL and their running sum as INL, for codes in any storage type or as voltages, whatever the amplitude or offset of the sine. "
      "Reordering samples or adding a code offset changes nothing, a missing code shows a DNL of minus one, and the edge-exclusion share removes only codes at the two ends.",
      ["inputs", "configurations"], "every resolution, width profile, sine amplitude and offset, start phase and storage type",
      "tests use ideal or one fixed converter and check bounds only",
      ["aout/compute_inl_from_sine.py", "aout/analyze_inl_from_sine.py"], [("arccos of cumulative histogram", "aout/compute_inl_from_sine.py")],
      ["returned codes, INL and DNL"], "The known one-code label shift is printed as a known finding; values are fully judged within histogram statistics.", "reference-model monitor with simulated converters"),
    P("C28", "Harmonic decomposition recovers each harmonic and conserves the record",
      "Decomposing a record into fundamental, harmonics and remainder returns the size in decibels and phase with which each harmonic was put in, and the parts always add up to the record. "
      "The remainder is orthogonal to what was removed; a time shift moves phases accordingly; a change of units moves no relative level; several runs are averaged; plotting changes no value.",
      ["inputs", "configurations"], "every record length, tone frequency (aliased harmonics included), number of harmonics, offset, noise level, run count and orientation",
      "tests use one low-frequency tone with one or two harmonics",
      ["aout/decompose_harmonic_error.py", "aout/_fit_sine_harmonics.py", "aout/analyze_decomposition_time.py", "aout/analyze_decomposition_polar.py", "aout/plot_decomposition_time.py", "aout/plot_decomposition_polar.py"],
      [("joint least-squares fit", "aout/_fit_sine_harmonics.py"), ("decomposition", "aout/decompose_harmonic_error.py")],
      ["returned dictionary"], "Harmonic sets in which two members alias to the same place are left out.", "conservation and reference-model monitor"),
    P("C29", "Error grouped by value or phase accounts for every sample and its cause",
      "Grouping the fit error by signal phase or by input value puts each sample into the group its phase or value says, with that group's count, mean and rms, and the groups together contain the whole error. "
      "Injected amplitude noise, phase noise and base noise are separated into the strengths put in; a value-dependent error appears at the values where it was put; the edge share removes only the outermost values; units and plotting change nothing but scale.",
      ["inputs", "configurations"], "every record, group count, value range, edge share, noise mixture and calling style",
      "tests check shapes and one noise mixture",
      ["aout/rearrange_error_by_phase.py", "aout/rearrange_error_by_value.py", "aout/_fit_error_phase.py", "aout/analyze_error_by_phase.py", "aout/analyze_error_by_value.py", "aout/_infer_signal_range.py"],
      [("phase grouping", "aout/rearrange_error_by_phase.py"), ("amplitude/phase separation", "aout/_fit_error_phase.py"), ("value grouping", "aout/rearrange_error_by_value.py")],
      ["returned dictionary"], "Samples on a group boundary are not judged; noise strengths within statistical bounds of at least six standard errors.", "reference-model and conservation monitor"),
    P("C30", "Error statistics describe the actual error of the record",
      "The error density, its mean, spread and divergence from normal (in LSB of the given or inferred full scale), the error autocorrelation over all requested lags, and the spectra of the error and of its envelope are those of the record minus its fitted sine. "
      "Injected correlation, spurs and modulation appear where they were put; the phase-plane outliers are exactly the samples beyond the robust threshold; the error trend and the rising-to-falling gap are those of the samples; plotting changes no value.",
      ["inputs", "configurations"], "every record, error distribution and colour, resolution, full scale, lag count, sampling rate and display option",
      "tests run one noise type per function and check key names",
      ["aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_error_spectrum.py", "aout/analyze_error_envelope_spectrum.py", "aout/analyze_phase_plane.py", "aout/analyze_error_phase_plane.py", "aout/__init__.py"],
      [("density", "aout/analyze_error_pdf.py"), ("autocorrelation", "aout/analyze_error_autocorr.py"), ("outliers", "aout/analyze_phase_plane.py"), ("trend and gap", "aout/analyze_error_phase_plane.py")],
      ["returned dictionaries and legacy tuples"], "Statistical expectations within at least six standard errors; definitions recomputed independently from the returned error record.", "reference-model monitor (independent recomputation from the error record)"),
    P("C31", "Static nonlinearity fit returns the distortion put in",
      "For a sine sent through a known polynomial, the fit returns second- and third-order coefficients relative to the linear term as they were put in, within the precision of its reference sine, and a transfer curve that is the least-squares polynomial of the record against that sine over its full range. "
      "A change of units scales the coefficients accordingly, an offset or record layout does not change them, polarity flips only the even one, a second-order fit reports no third order, and unusable orders or records are refused.",
      ["inputs", "configurations"], "every amplitude, offset, start phase, tone frequency, length, polynomial and fit order",
      "tests check one amplitude with one pair of coefficients loosely",
      ["aout/fit_static_nonlin.py"], [("polynomial against fitted sine", "aout/fit_static_nonlin.py")], ["returned coefficients, sine and curve"],
      "Truth comparison is widened by how far the reported sine is from the best sine, which is bounded separately.", "reference-model and metamorphic monitor"),
]
