"""C37: an option left out means its documented default, positional order is the documented one, and no option is ignored."""
import contextlib
import io
import sys
import _boot  # noqa: F401
import vmon
import gen
import api
import sarsim
import numpy as np
import matplotlib.pyplot as plt
import adctoolbox as at
from adctoolbox import aout, dout, spectrum, fundamentals as fu, calibration as ca, models, oversampling as ov, timeinterleave as ti
from adctoolbox.siggen import ADC_Signal_Generator

PROPERTY = "C37"
RULE = ("every public entry point with one documented option at a time left out, given by name, given by position, and changed; "
        "non-trivial = the compared results contain numbers")
REQUIRED_ORACLES = ["cosmetic", "computed default", "default", "by position", "takes effect", "all defaults", "required order"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1200}
NAN = float("nan")


class ANY(tuple):
    """Alternative values of which at least one must change the result."""
    def __new__(cls, *v):
        return tuple.__new__(cls, v)


SPEC = [("fs", 1.0, 2.5e6), ("osr", 1, 4), ("max_scale_range", None, 200.0), ("win_type", "hann", "blackman"), ("side_bin", None, 7), ("max_harmonic", 5, 2), ("nf_method", 0, ANY(1, 2, 3)),
        ("assumed_sig_pwr_dbfs", NAN, -3.0), ("coherent_averaging", False, None), ("create_plot", True, None), ("show_title", True, None), ("show_label", True, None),
        ("plot_harmonics_up_to", 3, None), ("ax", None, None)]
FIT = [("max_iterations", 1, 8), ("tolerance", 1e-9, None), ("return_fit", False, True)]
# name -> (function, number of required arguments, documented options in documented order: (option, default, other value that must change the result or None))
TABLE = {
    "analyze_spectrum": (spectrum.analyze_spectrum, 1, SPEC),
    "analyze_spectrum_virtuoso": (spectrum.analyze_spectrum_virtuoso, 1, [("win_type", "rectangular", "hann") if o[0] == "win_type" else o for o in SPEC]),
    "analyze_spectrum_polar": (spectrum.analyze_spectrum_polar, 1, [("max_code", None, 200.0), ("harmonic", 5, 2), ("osr", 1, 4), ("cutoff_freq", 0, 0.2), ("fs", 1.0, None), ("win_type", "boxcar", "hann"), ("create_plot", True, None), ("ax", None, None), ("fixed_radial_range", None, None)]),
    "compute_spectrum": (spectrum.compute_spectrum, 1, [("fs", 1.0, 2.5e6), ("max_scale_range", None, 200.0), ("win_type", "hann", "hamming"), ("side_bin", None, 7), ("osr", 1, 4), ("max_harmonic", 5, 3), ("nf_method", 0, ANY(1, 2, 3)), ("assumed_sig_pwr_dbfs", None, -3.0),
                                                        ("coherent_averaging", False, None), ("cutoff_freq", 0, 0.2), ("verbose", 0, None)]),
    "quick_sndr": (spectrum.quick_sndr, 1, [("fs", 1.0, None), ("win_type", "hann", "rectangular"), ("side_bin", None, 9), ("max_scale_range", None, None)]),
    "sweep_performance_vs_osr": (spectrum.sweep_performance_vs_osr, 1, [("osr", None, np.array([1.0, 2.0, 4.0])), ("harmonic", 5, None), ("create_plot", True, None), ("ax", None, None), ("logscale", True, None), ("smooth", None, None)]),
    "estimate_frequency": (fu.estimate_frequency, 1, [("frequency_estimate", None, None), ("fs", 1.0, 3e6)]),
    "fit_sine_4param": (fu.fit_sine_4param, 1, [("frequency_estimate", None, 0.25), ("max_iterations", 1, 8), ("tolerance", 1e-9, None), ("verbose", 0, None)]),
    "find_coherent_frequency": (fu.find_coherent_frequency, 3, [("force_odd", True, None), ("search_radius", 200, None)]),
    "analyze_error_by_value": (aout.analyze_error_by_value, 1, [("norm_freq", None, 0.25), ("n_bins", 100, 64), ("clip_percent", 0.01, 0.2), ("value_range", None, (-200.0, 200.0)), ("create_plot", True, None), ("axes", None, None), ("ax", None, None), ("title", None, None)] + FIT),
    "rearrange_error_by_value": (aout.rearrange_error_by_value, 1, [("norm_freq", None, 0.25), ("n_bins", 100, 99), ("clip_percent", 0.01, 0.1), ("value_range", None, (-200.0, 200.0))] + FIT),
    "analyze_error_by_phase": (aout.analyze_error_by_phase, 1, [("norm_freq", None, 0.25), ("n_bins", 100, 64), ("include_base_noise", True, False), ("create_plot", True, None), ("axes", None, None), ("ax", None, None), ("title", None, None)] + FIT),
    "rearrange_error_by_phase": (aout.rearrange_error_by_phase, 1, [("norm_freq", None, 0.25), ("n_bins", 100, 99), ("include_base_noise", True, False)] + FIT),
    "analyze_error_pdf": (aout.analyze_error_pdf, 1, [("resolution", 12, 10), ("full_scale", None, 200.0), ("frequency", None, 0.25), ("create_plot", True, None), ("ax", None, None), ("title", None, None)] + FIT),
    "analyze_error_autocorr": (aout.analyze_error_autocorr, 1, [("frequency", None, 0.25), ("max_lag", 50, 49), ("normalize", True, False), ("create_plot", True, None), ("ax", None, None), ("title", None, None)] + FIT),
    "analyze_error_spectrum": (aout.analyze_error_spectrum, 1, [("fs", 1, 5e5), ("frequency", None, 0.25), ("create_plot", True, None), ("ax", None, None), ("title", None, None)] + FIT),
    "analyze_error_envelope_spectrum": (aout.analyze_error_envelope_spectrum, 1, [("fs", 1, 5e5), ("frequency", None, 0.25), ("create_plot", True, None), ("ax", None, None), ("title", None, None)] + FIT),
    "analyze_phase_plane": (aout.analyze_phase_plane, 1, [("lag", "auto", 3), ("fs", 1.0, None), ("detect_outliers", True, False), ("threshold", 4.0, ANY(1.2, 500.0)), ("ax", None, None), ("title", None, None), ("create_plot", True, None)]),
    "analyze_error_phase_plane": (aout.analyze_error_phase_plane, 1, [("fs", 1.0, None), ("ax", None, None), ("title", None, None), ("create_plot", True, None), ("fit_polynomial_order", 3, 2), ("detect_hysteresis", True, False), ("unit_mode", "auto", None)]),
    "analyze_decomposition_time": (aout.analyze_decomposition_time, 1, [("harmonic", 5, 3), ("n_cycles", 5.0, None), ("create_plot", True, None), ("ax", None, None), ("title", None, None), ("frequency", None, 0.25), ("max_iterations", 1, 8), ("tolerance", 1e-9, None)]),
    "analyze_decomposition_polar": (aout.analyze_decomposition_polar, 1, [("harmonic", 5, 3), ("create_plot", True, None), ("ax", None, None), ("title", None, None), ("frequency", None, 0.25), ("max_iterations", 1, 8), ("tolerance", 1e-9, None)]),
    "decompose_harmonic_error": (aout.decompose_harmonic_error, 1, [("n_harmonics", 5, 4), ("frequency", None, 0.25), ("max_iterations", 1, 8), ("tolerance", 1e-9, None)]),
    "compute_inl_from_sine": (aout.compute_inl_from_sine, 1, [("num_bits", None, None), ("full_scale", None, None), ("clip_percent", 0.01, 0.1)]),
    "analyze_inl_from_sine": (aout.analyze_inl_from_sine, 1, [("num_bits", None, None), ("full_scale", None, None), ("clip_percent", 0.01, 0.1), ("create_plot", True, None), ("show_title", True, None), ("col_title", None, None), ("ax", None, None)]),
    "compute_inl_from_ramp": (aout.compute_inl_from_ramp, 1, [("num_bits", None, None), ("code_min", 0, None), ("code_max", None, None), ("endpoint", "endpoints", "none"), ("exclude_endpoints", True, False)]),
    "analyze_inl_from_ramp": (aout.analyze_inl_from_ramp, 1, [("num_bits", None, None), ("code_min", 0, None), ("code_max", None, None), ("input_type", "codes", None), ("endpoint", "endpoints", "none"), ("exclude_endpoints", True, False), ("create_plot", True, None),
                                                              ("show_title", True, None), ("col_title", None, None), ("axes", None, None), ("ax", None, None)]),
    "calibrate_weight_sine": (ca.calibrate_weight_sine, 1, [("freq", None, None), ("force_search", None, None), ("nominal_weights", None, None), ("harmonic_order", 1, 3), ("learning_rate", 0.5, None), ("reltol", 1e-12, None), ("max_iter", 100, None), ("verbose", 0, None)]),
    "analyze_bit_activity": (dout.analyze_bit_activity, 1, [("create_plot", True, None), ("ax", None, None), ("title", None, None)]),
    "analyze_overflow": (dout.analyze_overflow, 2, [("ofb", None, None), ("create_plot", True, None), ("ax", None, None), ("title", None, None)]),
    "analyze_enob_sweep": (dout.analyze_enob_sweep, 1, [("freq", None, None), ("harmonic_order", 1, None), ("osr", 1, 4), ("win_type", "hamming", "rectangular"), ("create_plot", True, None), ("ax", None, None), ("title", None, None), ("verbose", False, None)]),
    "analyze_weight_radix": (dout.analyze_weight_radix, 1, [("create_plot", True, None), ("ax", None, None), ("title", None, None)]),
    "plot_residual_scatter": (dout.plot_residual_scatter, 2, [("weights", None, "weights"), ("pairs", None, [(0, 1)]), ("alpha", "auto", None), ("create_plot", True, None)]),
    "fractional_delay_farrow": (ti.fractional_delay_farrow, 3, [("n_taps", 7, 5)]),
    "fractional_delay_fft": (ti.fractional_delay_fft, 3, []),
    "extract_mismatch_sine": (ti.extract_mismatch_sine, 3, [("fin", None, None)]),
    "calibrate_foreground": (ti.calibrate_foreground, 4, [("skew_method", "fft", "farrow"), ("n_taps", 7, None)]),
    "predict_spurs": (ti.predict_spurs, 2, [("fin", None, None), ("full_scale", 1.0, 3.0)]),
    "deinterleave": (ti.deinterleave, 2, []),
    "sar_ideal_weights": (models.sar_ideal_weights, 1, [("redundant_bit", None, 2)]),
    "sar_convert": (models.sar_convert, 2, [("quant_range", (0.0, 1.0), (-1.0, 2.0)), ("sampling_noise_rms", 0.0, 0.05), ("comparator_noise_rms", 0.0, 0.05), ("rng", None, None)]),
    "sar_reconstruct": (models.sar_reconstruct, 2, [("quant_range", (0.0, 1.0), (-1.0, 2.0))]),
    "snr_to_nsd": (fu.snr_to_nsd, 2, [("osr", 1.0, 4.0), ("psignal_dbfs", 0.0, -3.0)]),
    "nsd_to_snr": (fu.nsd_to_snr, 2, [("osr", 1.0, 4.0), ("psignal_dbfs", 0.0, -3.0)]),
    "amplitudes_to_snr": (fu.amplitudes_to_snr, 2, [("osr", 1, 4), ("return_power", False, None)]),
    "dbm_to_vrms": (fu.dbm_to_vrms, 1, [("z_load", 50, 75)]),
    "vrms_to_dbm": (fu.vrms_to_dbm, 1, [("z_load", 50, 75)]),
    "sine_amplitude_to_power": (fu.sine_amplitude_to_power, 1, [("z_load", 50, 75)]),
    "calculate_thermal_noise_limit": (at.calculate_thermal_noise_limit, 1, [("v_fs", 1.0, 2.0)]),
    "calculate_walden_fom": (at.calculate_walden_fom, 3, []),
    "calculate_schreier_fom": (at.calculate_schreier_fom, 3, []),
    "calculate_jitter_limit": (at.calculate_jitter_limit, 2, []),
    "lsb_to_volts": (fu.lsb_to_volts, 3, []),
    "volts_to_lsb": (fu.volts_to_lsb, 3, []),
    "bin_to_freq": (fu.bin_to_freq, 3, []),
    "freq_to_bin": (fu.freq_to_bin, 3, []),
    "ntf_analyzer": (ov.ntf_analyzer, 3, []),
}
REQ = {  # documented names of the required arguments, in order
    "find_coherent_frequency": ["fs", "fin_target", "n_fft"], "analyze_overflow": ["raw_code", "weight"], "plot_residual_scatter": ["signal", "bits"],
    "fractional_delay_farrow": ["x", "delay_sec", "fs"], "fractional_delay_fft": ["x", "delay_sec", "fs"], "extract_mismatch_sine": ["x", "M", "fs"], "calibrate_foreground": ["x", "M", "params", "fs"],
    "predict_spurs": ["params", "fs"], "deinterleave": ["x", "M"], "sar_convert": ["vin", "weights"], "sar_reconstruct": ["codes", "weights"], "snr_to_nsd": ["snr_db", "fs"], "nsd_to_snr": ["nsd_dbfs_hz", "fs"],
    "amplitudes_to_snr": ["sig_amplitude", "noise_amplitude"], "calculate_walden_fom": ["power", "fs", "enob"], "calculate_schreier_fom": ["power", "sndr_db", "bw"], "calculate_jitter_limit": ["freq", "jitter_rms_sec"],
    "lsb_to_volts": ["lsb_count", "vref", "n_bits"], "volts_to_lsb": ["volts", "vref", "n_bits"], "bin_to_freq": ["bin_idx", "fs", "n_fft"], "freq_to_bin": ["freq", "fs", "n_fft"], "ntf_analyzer": ["ntf", "flow", "fhigh"],
}
GEN = {  # signal generator: documented options after the input record
    "apply_am_noise": [("strength", 0.01, 0.05)], "apply_am_tone": [("am_tone_freq", 500e3, 7e5), ("am_tone_depth", 0.05, 0.1)], "apply_clipping": [("percentile_clip", 1.0, 5.0)], "apply_drift": [("drift_scale", 5e-5, 1e-3)],
    "apply_glitch": [("glitch_prob", 0.00015, 0.2), ("glitch_amplitude", 0.1, None)], "apply_incomplete_sampling": [("T_track", None, 1e-10), ("tau_nom", 4e-11, 1e-10), ("coeff_k", 0.15, 0.3)], "apply_jitter": [("jitter_rms", 2e-12, 5e-12)],
    "apply_memory_effect": [("memory_strength", 0.009, 0.02)], "apply_noise_shaping": [("n_bits", 10, 8), ("quant_range", (0.0, 1.0), (-1.0, 2.0)), ("order", 1, 2), ("ntf", None, None)], "apply_quantization_noise": [("n_bits", 10, 6), ("quant_range", (0.0, 1.0), (-1.0, 2.0))],
    "apply_ra_gain_error": [("relative_gain", 0.99, 0.95), ("msb_bits", 4, 3), ("lsb_bits", 12, 6), ("mode", "coarse_path", None)], "apply_ra_gain_error_dynamic": [("relative_gain", 1, 0.97), ("coeff_3", 0.15, 0.3), ("msb_bits", 4, 3), ("lsb_bits", 12, 6), ("mode", "coarse_path", None)],
    "apply_reference_error": [("settling_tau", 2.0, 4.0), ("droop_strength", 0.01, 0.03)], "apply_static_nonlinearity": [("k2", 0, 0.01), ("k3", 0, 0.01), ("k4", 0, 0.01), ("k5", 0, 0.01)],
    "apply_static_nonlinearity_hd": [("hd2_dB", None, -50.0), ("hd3_dB", None, -50.0), ("hd4_dB", None, -60.0), ("hd5_dB", None, -60.0)], "apply_thermal_noise": [("noise_rms", 5e-5, 1e-3)],
}
PLOTTED = {n for n, t in TABLE.items() if any(o[0] == "create_plot" for o in t[2])}


def cases(rng, tier):
    names = sorted(TABLE) + ["gen." + g for g in sorted(GEN)]
    for i in range(8 if tier == "quick" else 48):
        for n in names:
            yield {"seed": gen.seed_of(rng), "kind": n}


def arguments(name, rng):
    """Required arguments and options fixed for every call of the case."""
    if name == "find_coherent_frequency":
        return (1e6, 1e5 * rng.random() + 1e4, 1024), {}
    if name == "extract_mismatch_sine":
        x = 0.5 * np.cos(2 * np.pi * 101 * np.arange(1024) / 1024) + 1e-3 * rng.standard_normal(1024)
        return (x, 4, 1e6), {}
    if name == "calibrate_foreground":
        x = 0.5 * np.cos(2 * np.pi * 37 * np.arange(1024) / 1024) + 1e-3 * rng.standard_normal(1024)
        return (x, 4, api.ti_params(rng), 1e6), {}
    if name == "deinterleave":
        return (rng.standard_normal(96), 4), {}
    if name.startswith("fractional_delay"):
        return (rng.standard_normal(256), rng.uniform(-2, 2) * 1e-6, 1e6), {}
    if name == "predict_spurs":
        return (api.ti_params(rng), 1e6), {"fin": 1.2e5}
    if name.startswith("calculate") or name in ("lsb_to_volts", "volts_to_lsb", "bin_to_freq", "freq_to_bin"):
        if name == "freq_to_bin":
            return (rng.uniform(1e4, 4e5), 1e6, 4096), {}
        if name == "bin_to_freq":
            return (gen.ri(rng, 3, 500), 1e6, 4096), {}
        if name in ("lsb_to_volts", "volts_to_lsb"):
            return (rng.uniform(0.1, 9), rng.uniform(0.5, 3), gen.ri(rng, 4, 14)), {}
        return {"calculate_thermal_noise_limit": (rng.uniform(0.1, 10),), "calculate_walden_fom": (rng.uniform(1e-3, 1), 1e8, rng.uniform(6, 12)), "calculate_schreier_fom": (rng.uniform(1e-3, 1), rng.uniform(50, 90), 1e6),
                "calculate_jitter_limit": (rng.uniform(1e6, 1e9), rng.uniform(1e-13, 1e-11))}[name], {}
    if name in ("compute_inl_from_sine", "analyze_inl_from_sine"):
        w = 2 ** 8
        c = np.clip(np.round(127.5 + 126.7 * np.cos(2 * np.pi * 1201 * np.arange(8192) / 8192 + rng.uniform(0, 6)) + 0.3 * rng.standard_normal(8192)), 0, w - 1).astype(int)
        return (c,), {"num_bits": 8}
    if name in ("compute_inl_from_ramp", "analyze_inl_from_ramp"):
        return (np.sort(np.concatenate([rng.integers(0, 64, 4000), np.arange(64), np.zeros(70, int), np.full(90, 63)])),), {"num_bits": 6}
    if name == "calibrate_weight_sine" or name == "analyze_enob_sweep":
        B, w, f = api.bits(rng, B=7)
        return (B,), {"freq": f}
    if name == "analyze_bit_activity":
        return (api.bits(rng)[0],), {}
    if name == "analyze_overflow":
        B, w, f = api.bits(rng)
        return (B, w), {}
    if name == "analyze_weight_radix":
        return (api.bits(rng)[1],), {}
    if name == "plot_residual_scatter":
        B, w, f = api.bits(rng, B=7)
        return (B @ w, B), {}
    if name == "sar_convert":
        return (rng.random(200), models.sar_ideal_weights(8)), {"rng": np.random.default_rng(5)}
    if name == "sar_reconstruct":
        return ((rng.random((50, 8)) < 0.5).astype(int), models.sar_ideal_weights(8)), {}
    if name == "sar_ideal_weights":
        return (gen.ri(rng, 5, 12),), {}
    if name in ("snr_to_nsd", "nsd_to_snr", "amplitudes_to_snr", "dbm_to_vrms", "vrms_to_dbm", "sine_amplitude_to_power"):
        return api.other(rng)[name][1], {}
    if name == "ntf_analyzer":
        return (([1.0, -1.0], [1.0, 0.0]), 0.0, rng.uniform(0.02, 0.2)), {}
    # everything else takes one sine record; the tone is off-bin so that frequency refinement matters
    N = gen.pick(rng, [1024, 1000, 1536])
    b = gen.ri(rng, 40, N // 3) + rng.uniform(0.15, 0.4)
    A = rng.uniform(20, 90)
    n = np.arange(N)
    p = 2 * np.pi * b * n / N + rng.uniform(0, 6.28)
    x = A * (np.cos(p) + 0.004 * np.cos(2 * p + 1) + 0.003 * np.cos(3 * p)) + 2e-3 * A * rng.standard_normal(N) + rng.uniform(-3, 3)
    if name == "analyze_phase_plane":
        x[gen.ri(rng, 50, N - 50)] += 2.5 * A
    return (x,), {}


def flatten(r, pre=""):
    """Every number and text of a result as a flat list of (path, array); figure objects are left out."""
    out = []
    if isinstance(r, dict):
        for k in sorted(r, key=str):
            out += flatten(r[k], pre + "/" + str(k))
    elif isinstance(r, (list, tuple)):
        try:
            a = np.asarray(r)
            if a.dtype.kind in "bifc":
                return [(pre, a)]
        except ValueError:
            pass
        for i, v in enumerate(r):
            out += flatten(v, "%s/%d" % (pre, i))
    elif r is None or isinstance(r, str):
        out.append((pre, r))
    else:
        try:
            a = np.asarray(r)
        except Exception:
            return out
        if a.dtype.kind in "bifc":
            out.append((pre, a))
    return out


def same(a, b, tol=1e-9):
    fa, fb = flatten(a), flatten(b)
    if [p for p, _ in fa] != [p for p, _ in fb]:
        return "fields %s against %s" % (sorted(set(p for p, _ in fa) ^ set(p for p, _ in fb))[:4], "")
    for (p, x), (_, y) in zip(fa, fb):
        if x is None or isinstance(x, str) or y is None or isinstance(y, str):
            if not (isinstance(x, type(y)) and x == y):
                return "%s: %r against %r" % (p, x, y)
            continue
        if x.shape != y.shape:
            return "%s: shape %s against %s" % (p, x.shape, y.shape)
        if x.dtype.kind == "b" or y.dtype.kind == "b":
            ok = np.array_equal(x, y)
        else:
            s = np.max(np.abs(y[np.isfinite(y)])) if np.any(np.isfinite(y)) else 0.0
            ok = np.allclose(x, y, rtol=tol, atol=tol * s * 1e-3, equal_nan=True)
        if not ok:
            return "%s: %s against %s" % (p, vmon.brief(np.ravel(x)), vmon.brief(np.ravel(y)))
    return ""


# options that concern drawing or progress output only: no returned value may depend on them
COSMETIC = {"verbose": (1, 2, True), "title": ("Bench 7",), "show_title": (False,), "show_label": (False,), "plot_harmonics_up_to": (0, 7), "col_title": ("Bench 7",), "logscale": (False,), "smooth": (3,), "fixed_radial_range": (90,),
            "n_cycles": (2.0,), "alpha": (0.25,)}
# documented defaults that follow from the other arguments
COMPUTED = {
    "analyze_error_pdf": [("full_scale", lambda a: float(np.max(a[0]) - np.min(a[0])))],
    "analyze_overflow": [("ofb", lambda a: a[0].shape[1])],
    "sweep_performance_vs_osr": [("osr", lambda a: (len(a[0]) / 2) / np.arange(len(a[0]) // 2, 0, -1))],
    "calibrate_weight_sine": [("nominal_weights", lambda a: 2.0 ** np.arange(a[0].shape[1] - 1, -1, -1))],
}


def quiet_options(m, rng, name, go, args, opts):
    """Every drawing or progress option, alone and while drawing, leaves the returned values alone; computed defaults can be spelled out."""
    names = [o for o, _, _ in opts]
    base = go(*args)
    for o in names:
        for v in COSMETIC.get(o, ()):
            draw = [{}] + ([{"create_plot": True}] if name in PLOTTED and "polar" not in name and rng.random() < 0.3 else [])
            for extra in draw:
                d = same(go(*args, **{o: v}, **extra), base)
                m.check("cosmetic", not d, lambda: "%s: %s=%r%s changes the result: %s" % (name, o, v, " while drawing" if extra else "", d))
    for o, f in COMPUTED.get(name, ()):
        d = same(go(*args, **{o: f(args)}), base)
        m.check("computed default", not d, lambda: "%s without %s differs from %s=%s: %s" % (name, o, o, vmon.brief(f(args)), d))
    if name == "predict_spurs":
        p = dict(args[0])
        fin = rng.uniform(0.05, 0.4) * args[1]
        p["fin"] = fin
        d = same(m.call(ti.predict_spurs, p, args[1]), m.call(ti.predict_spurs, args[0], args[1], fin=fin))
        m.check("computed default", not d, lambda: "predict_spurs: tone taken from the parameters: %s" % d)
        d = same(m.call(ti.predict_spurs, p, args[1], fin=0.7 * fin), m.call(ti.predict_spurs, args[0], args[1], fin=0.7 * fin))
        m.check("computed default", not d, lambda: "predict_spurs: tone given although the parameters name another: %s" % d)
    if name == "calibrate_weight_sine":
        # nominal weights only come into play when columns cannot be told apart
        B = np.hstack([args[0], args[0][:, 2:3]])
        o = rng.permutation(B.shape[1])
        B = B[:, o]
        d = same(go(B, nominal_weights=2.0 ** np.arange(B.shape[1] - 1, -1, -1)), go(B))
        m.check("computed default", not d, lambda: "calibrate_weight_sine with twin columns, nominal weights spelled out: %s" % d)
        for v in (1, 2):
            d = same(go(B, verbose=v), go(B))
            m.check("cosmetic", not d, lambda: "calibrate_weight_sine with twin columns, verbose=%d: %s" % (v, d))
            d = same(go([args[0], args[0][::-1]], verbose=v, freq=None), go([args[0], args[0][::-1]], freq=None))
            m.check("cosmetic", not d, lambda: "calibrate_weight_sine with frequency search, verbose=%d: %s" % (v, d))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    name = c["kind"]
    if name.startswith("gen."):
        return generator(c, m, rng, name[4:])
    fn, nreq, opts = TABLE[name]
    args, fixed = arguments(name, rng)
    W = np.abs(rng.standard_normal(args[1].shape[1])) + 0.1 if name == "plot_residual_scatter" else None

    def go(*a, **k):
        k = dict(k)
        for o, v in fixed.items():
            if o not in k and o not in taken:
                k[o] = np.random.default_rng(5) if o == "rng" else v
        if name in PLOTTED and "create_plot" not in k and "create_plot" not in taken:
            k["create_plot"] = False
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return m.call(fn, *a, **k)
        finally:
            if plt.get_fignums():
                plt.close("all")
    taken = set()
    base = go(*args)
    if flatten(base):
        m.nontrivial()
    if name in REQ:
        kw = dict(zip(REQ[name], args))
        m.check("required order", not same(go(**kw), base), lambda: "%s: by name %s" % (name, same(go(**kw), base)))
    quiet_options(m, rng, name, go, args, opts)
    every = {}
    for o, d, alt in opts:
        if o == "create_plot":
            continue
        if o in fixed:
            d = fixed[o] if o != "rng" else None
            if o == "rng":
                continue
        every[o] = d
        d1 = same(go(*args, **{o: d}), base)
        m.check("default", not d1, lambda: "%s without %s differs from %s=%r: %s" % (name, o, o, d, d1))
        if alt is not None and o not in fixed:
            alts = alt if isinstance(alt, ANY) else (W if isinstance(alt, str) and alt == "weights" else alt,)
            d2 = any(same(go(*args, **{o: a}), base) for a in alts)
            for _ in range(3):  # a particular record may happen not to need the option
                if not d2:
                    other = arguments(name, rng)[0]
                    d2 = any(same(go(*other, **{o: a}), go(*other)) for a in alts)
            m.check("takes effect", bool(d2), lambda: "%s: %s=%r changes nothing" % (name, o, alt))
    if every:
        d3 = same(go(*args, **every), base)
        m.check("all defaults", not d3, lambda: "%s with all documented defaults given: %s" % (name, d3))
        if name not in ("calibrate_foreground",):
            pos = []
            for o, d, alt in opts:
                if o == "create_plot":
                    pos.append(False)
                elif o == "rng":
                    pos.append(np.random.default_rng(5))
                else:
                    pos.append(fixed.get(o, d))
            k = gen.ri(rng, 1, len(pos) + 1)
            # one option changed and handed over by position
            alts = [i for i in range(k) if opts[i][2] is not None and opts[i][0] not in fixed]
            kw = {}
            if alts:
                i = gen.pick(rng, alts)
                a2 = opts[i][2][0] if isinstance(opts[i][2], ANY) else W if isinstance(opts[i][2], str) and opts[i][2] == "weights" else opts[i][2]
                pos[i] = a2
                kw = {opts[i][0]: a2}
            taken = set(o for o, _, _ in opts[:k])
            got = go(*(tuple(args) + tuple(pos[:k])))
            taken = set()
            want = go(*args, **kw)
            d4 = same(got, want)
            m.check("by position", not d4, lambda: "%s with %d options by position (%s): %s" % (name, k, kw, d4))
    m.sample(entry=name, options=len(opts))


def generator(c, m, rng, name):
    N = 1024
    b = gen.coprime_bin(rng, N, 12, 400)
    opts = GEN[name]
    x = 0.5 + 0.4 * np.cos(2 * np.pi * b * np.arange(N) / N + rng.uniform(0, 6)) + 0.01 * rng.standard_normal(N)
    seed = gen.ri(rng, 0, 2 ** 31)

    def go(*a, **k):
        g = ADC_Signal_Generator(N=N, Fs=1e9, Fin=b / N * 1e9, A=0.4, DC=0.5)
        np.random.seed(seed)
        return m.call(getattr(g, name), *a, **k)
    base = go(x)
    m.nontrivial()
    d0 = same(go(input_signal=x), base)
    m.check("required order", not d0, lambda: "%s input by name: %s" % (name, d0))
    every = {}
    for o, d, alt in opts:
        every[o] = d
        d1 = same(go(x, **{o: d}), base)
        m.check("default", not d1, lambda: "%s without %s differs from %s=%r: %s" % (name, o, o, d, d1))
        if alt is not None:
            d2 = same(go(x, **{o: alt}), base)
            m.check("takes effect", bool(d2), lambda: "%s: %s=%r changes nothing" % (name, o, alt))
    d3 = same(go(x, **every), base)
    m.check("all defaults", not d3, lambda: "%s with all documented defaults given: %s" % (name, d3))
    alts = [i for i in range(len(opts)) if opts[i][2] is not None]
    i = gen.pick(rng, alts)
    pos = [o[1] for o in opts[:i]] + [opts[i][2]]
    d4 = same(go(x, *pos), go(x, **{opts[i][0]: opts[i][2]}))
    m.check("by position", not d4, lambda: "%s %s by position: %s" % (name, opts[i][0], d4))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
