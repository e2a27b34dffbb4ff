"""Property definitions, part D (whole-package behaviour: purity, storage, files, figures, validation)."""
from props_a import P

PROPS = [
    P("C32", "Analyses leave inputs, figures, random stream and process state alone",
      "No analysis, model, calibration, signal-chain or validation call changes the arrays, lists or dictionaries handed to it (read-only data works too), and calling it again, or after other calls on other data, gives the same result; changing a returned result does not affect later calls. "
      "Without plotting it neither creates, closes nor draws on a figure; with given axes it draws only there; it never touches the global random stream (unless it is documented to draw noise), numeric error settings, plot settings, the working directory or files.",
      ["inputs", "histories", "configurations"], "every public entry point, every order and repetition of calls, every argument storage including read-only",
      "tests call each function once on fresh data and look only at the value returned",
      ["__init__.py", "spectrum/analyze_spectrum.py", "aout/analyze_error_spectrum.py", "aout/analyze_error_envelope_spectrum.py", "siggen/nonidealities.py", "calibration/calibrate_weight_sine.py", "models/sar.py", "timeinterleave/calibrate_foreground.py", "oversampling/ifilter.py"],
      [("argument handling", "spectrum/_prepare_fft_input.py"), ("plot switch", "spectrum/analyze_spectrum.py"), ("signal chain", "siggen/nonidealities.py"), ("calibration scaling", "calibration/_scale_columns_for_conditioning.py")],
      ["arguments before and after, repeated results, figure registry, random state, process settings"],
      "Every registered entry point is called in every run; histories are random.", "purity sanitizer: before/after snapshots around every call, interleaved repetition, read-only buffers"),
    P("C33", "Storage type and memory layout of the same samples never change a result",
      "The same sample values handed over as float64, float32, any integer type that can hold them (including values at the ends of narrow types), boolean bits, non-native byte order, strided, reversed-stride or column-major arrays, or plain lists where accepted, give the same result. "
      "No integer wrap-around, truncation or view aliasing may show in any metric, fit, calibration, histogram or diagnostic.",
      ["inputs", "configurations"], "every public entry point taking samples, bits, codes or weights, and every storage form that can hold the values exactly",
      "tests hand over float64 or default integer arrays only",
      ["spectrum/_prepare_fft_input.py", "fundamentals/fit_sine_4param.py", "aout/compute_inl_from_sine.py", "aout/compute_inl_from_ramp.py", "calibration/_prepare_input.py", "dout/analyze_overflow.py", "aout/analyze_error_pdf.py"],
      [("input preparation", "spectrum/_prepare_fft_input.py"), ("bit matrix preparation", "calibration/_prepare_input.py"), ("code range", "aout/compute_inl_from_sine.py")],
      ["returned values for each storage form against contiguous float64"],
      "Exact for integer-valued data; single precision uses values exactly representable.", "metamorphic monitor over storage forms"),
    P("C34", "Command-line tools never destroy user files and report the true state",
      "Installing, linking, listing and checking bundled skills and copying examples change nothing outside the named destination entries, never alter the bundled source, never follow a link into its target, and refuse to replace an existing entry unless forced. "
      "After success the destination holds exactly the bundled content (or a link to it); after a failure such as a full disk or missing permission the tool says so, unrelated files are intact and a forced retry recovers; status reports in-sync exactly when the trees are equal, and changes nothing; exit codes match the outcome.",
      ["histories", "fault_sequences", "configurations"], "every sequence of commands over destinations that are empty, edited, linked, files instead of directories, read-only, nested in the source, or running out of space",
      "tests cover the success path and one refusal in a fresh temporary directory",
      ["skill_cli.py", "cli.py"], [("install and status", "skill_cli.py"), ("example copy", "cli.py")],
      ["file trees before and after, recorded file operations, exit code, printed and returned text"],
      "Commands run as an unprivileged user on a scratch copy of the package; an audit hook refuses writes outside it.", "fault-injecting file-system monitor with an independent tree model"),
    P("C35", "Figures and dashboards show exactly the values that were computed",
      "Every curve, point, bar and marker a plotting call draws is the computed data at its true position and inside the range the plot lays out for it: tone, harmonics and largest spur at their frequencies, codes, phases, lags and sample numbers on their axes; every printed number is the returned metric to the digits shown, in the unit shown. "
      "Drawing succeeds wherever the analysis does, whichever axes are given, and labels or titles that are switched off do not appear. "
      "A dashboard contains each of its analyses for the given data and options, saves exactly the requested file, and leaves other figures alone.",
      ["inputs", "configurations"], "every plotting entry point, sampling rate from sub-hertz to gigahertz, number of runs, oversampling ratio, unit mode, label and title switches, axes arrangement",
      "tests only check that a file or figure exists",
      ["spectrum/plot_spectrum.py", "spectrum/plot_spectrum_virtuoso.py", "spectrum/plot_spectrum_polar.py", "spectrum/sweep_performance_vs_osr.py", "aout/plot_dnl_inl.py", "aout/plot_rearranged_error_by_phase.py", "aout/plot_rearranged_error_by_value.py",
       "aout/plot_decomposition_time.py", "aout/plot_decomposition_polar.py", "aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_phase_plane.py", "aout/analyze_error_phase_plane.py", "dout/analyze_bit_activity.py",
       "dout/analyze_overflow.py", "dout/analyze_weight_radix.py", "dout/analyze_enob_sweep.py", "dout/plot_residual_scatter.py", "toolset/generate_aout_dashboard.py", "toolset/generate_aout_dashboard_3x4.py", "toolset/generate_dout_dashboard.py"],
      [("spectrum annotation", "spectrum/plot_spectrum.py"), ("unit formatting", "aout/plot_rearranged_error_by_phase.py"), ("dashboards", "toolset/generate_aout_dashboard.py")],
      ["figure contents (lines, points, bars, texts), saved files, figure registry"],
      "Figure contents are read back from the artists; colours and sizes are not judged; axis limits only where they are laid out from the data.", "figure-content monitor: artists read back and compared with returned values and known truth"),
    P("C36", "Data validation accepts sound data and refuses or flags every defect",
      "Validating an analog record or a bit matrix accepts sound data silently in any numeric storage type, and refuses with a value error any data with a non-finite, complex or non-numeric entry, wrong dimensions, too few samples, no variation, or an entry that is not a bit, wherever the defect sits. "
      "Very weak signals, more bits than samples and stuck bits draw a warning, and the stuck bits named are exactly those stuck.",
      ["inputs"], "every record and bit matrix, storage type, defect kind and position",
      "tests call the validators on one sound example",
      ["fundamentals/validate.py"], [("integrity checks", "fundamentals/validate.py")],
      ["raised errors and warnings"], "One planted defect per case; ranges within 1 % of the weak-signal threshold are left out.", "defect-injection monitor"),
]
