"""Property definitions, part E (options, defaults and fit control)."""
from props_a import P

PROPS = [
    P("C37", "Omitted options mean their documented defaults and none is ignored",
      "Leaving an option out gives exactly the result of passing its documented default by name, and arguments given by position, in the documented order, give the result of the same arguments by name. "
      "Changing an option that is documented to affect the result does affect it, and options that only concern drawing or progress output change no returned value.",
      ["configurations", "inputs"], "every public entry point, every documented option, one option at a time and all together, on random records",
      "tests pass each option in one form only and rarely compare with the default spelled out",
      ["spectrum/analyze_spectrum.py", "spectrum/analyze_spectrum_polar.py", "spectrum/compute_spectrum.py", "spectrum/quick_sndr.py", "aout/analyze_error_by_value.py", "aout/analyze_error_by_phase.py", "aout/analyze_error_pdf.py",
       "aout/analyze_decomposition_time.py", "aout/analyze_inl_from_sine.py", "aout/analyze_inl_from_ramp.py", "calibration/calibrate_weight_sine.py", "dout/analyze_enob_sweep.py", "timeinterleave/calibrate_foreground.py", "models/sar.py", "siggen/nonidealities.py", "fundamentals/units.py"],
      [("option forwarding", "spectrum/analyze_spectrum.py"), ("option forwarding", "aout/analyze_error_by_value.py"), ("impairment defaults", "siggen/nonidealities.py")],
      ["returned values with the option left out, named, positional and changed"],
      "The table of documented options is part of the check; options that only concern drawing are compared for unchanged results.", "metamorphic monitor over call forms"),
    P("C38", "Every error analysis removes exactly the sine the fit settings ask for",
      "For any start frequency, iteration limit and tolerance, every error analysis and decomposition works on the record minus the sine that the public fit returns for the same settings, and reports that fit, when asked and only then. "
      "The fit never refines more often than allowed, keeps the given frequency when no refinement is allowed, calls itself converged exactly when the last update was below the tolerance, and warns otherwise; drawing or progress output changes nothing.",
      ["configurations", "inputs"], "every error analysis, off-bin records, start frequency given or not, iteration limits from none to many, tolerances over nine decades",
      "tests use coherent tones for which all settings give the same sine",
      ["fundamentals/fit_sine_4param.py", "aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_error_spectrum.py", "aout/analyze_error_envelope_spectrum.py", "aout/analyze_error_by_value.py", "aout/analyze_error_by_phase.py",
       "aout/rearrange_error_by_value.py", "aout/rearrange_error_by_phase.py", "aout/decompose_harmonic_error.py", "aout/analyze_decomposition_time.py", "aout/analyze_decomposition_polar.py"],
      [("frequency refinement", "fundamentals/fit_sine_4param.py"), ("fit settings", "aout/analyze_error_spectrum.py"), ("fit report", "aout/_fit_diagnostics.py")],
      ["error records, reported fit, warnings"],
      "The removed sine is compared with a separate call of the public fit; the fit itself is judged against known truth by the sine-fit property.", "differential monitor between every analysis and the public fit, plus fit state invariants"),
    P("C39", "Unusable arguments are refused, the nearest usable ones accepted",
      "A call whose arguments cannot give a meaningful result (empty or non-finite data, mismatched lengths, ranges turned round, counts or ratios out of bounds, unknown option names) raises a value error instead of returning numbers, and the nearest meaningful call succeeds. "
      "Doubtful but usable arguments give a result together with a warning, and ordinary ones give no warning.",
      ["inputs", "configurations"], "some thirty public entry points, each argument just outside and just inside its usable range, on random data",
      "tests try a few refusals per function at one value and seldom the accepted neighbour",
      ["aout/compute_inl_from_ramp.py", "aout/rearrange_error_by_value.py", "aout/rearrange_error_by_phase.py", "calibration/_prepare_input.py", "dout/analyze_overflow.py", "dout/plot_residual_scatter.py", "models/sar.py", "oversampling/perfosr.py",
       "spectrum/_bin_ranges.py", "spectrum/_prepare_fft_input.py", "timeinterleave/deinterleave.py", "timeinterleave/extract_mismatch_sine.py", "siggen/nonidealities.py", "fundamentals/validate.py"],
      [("argument guards", "aout/rearrange_error_by_value.py"), ("argument guards", "aout/compute_inl_from_ramp.py"), ("input preparation", "spectrum/_prepare_fft_input.py")],
      ["raised errors, warnings, returned values"],
      "Only the kind of error is judged, never its wording.", "boundary-pair monitor at every entry point"),
    P("C40", "Bundled examples run as shipped and stay in their folder",
      "Every bundled example, copied to any folder and run unchanged from any working directory without a display, finishes without error, writes only below its own folder, and every file it announces is there and holds a real picture or table. "
      "Every package call it makes leaves its arguments alone, gives the same values when repeated without drawing and opens no figure when none is asked for, and the metrics obey their documented relations.",
      ["programs", "configurations"], "all bundled example scripts, each from a fresh copy, an unrelated working directory and an unprivileged account",
      "tests call functions one at a time; no test runs an example, so option combinations, drawing order and file output of real sessions are never exercised",
      ["examples/06_use_toolsets/exp_t03_dout_dashboard_single.py", "__init__.py", "spectrum/analyze_spectrum.py", "spectrum/analyze_spectrum_polar.py", "aout/analyze_error_by_phase.py", "dout/analyze_enob_sweep.py", "toolset/generate_aout_dashboard.py", "toolset/generate_dout_dashboard.py", "oversampling/perfosr.py"],
      [("public names", "__init__.py"), ("drawing onto given axes", "spectrum/plot_spectrum.py"), ("dashboards", "toolset/generate_dout_dashboard.py")],
      ["exit status, files written, announced paths, arguments and results of every public call"],
      "Every public function is wrapped from outside before the example starts; no change to the package is needed.", "whole-program runs under call monitors and a file-write sanitizer"),
]
