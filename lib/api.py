"""Registry of public entry points with realistic argument makers, shared by the purity and storage-type monitors."""
import numpy as np
import gen
import sarsim
import adctoolbox as at
from adctoolbox import aout, dout, spectrum, fundamentals as fu, calibration as ca, models, oversampling as ov, timeinterleave as ti
from adctoolbox.siggen import ADC_Signal_Generator

# functions with a create_plot switch; used with create_plot=False here
REC = {  # name -> (function, options maker) taking one sine record
    "analyze_spectrum": (spectrum.analyze_spectrum, lambda r: dict(fs=gen.logu(r, 1, 1e9), win_type=gen.pick(r, gen.WINDOWS), create_plot=False)),
    "analyze_spectrum_virtuoso": (spectrum.analyze_spectrum_virtuoso, lambda r: dict(create_plot=False)),
    "analyze_spectrum_polar": (spectrum.analyze_spectrum_polar, lambda r: dict(create_plot=False)),
    "compute_spectrum": (spectrum.compute_spectrum, lambda r: dict(osr=gen.pick(r, [1, 1, 4]), nf_method=gen.pick(r, [0, 1, 2]))),
    "quick_sndr": (spectrum.quick_sndr, lambda r: {}),
    "sweep_performance_vs_osr": (spectrum.sweep_performance_vs_osr, lambda r: dict(create_plot=False, osr=np.array([8.0, 1.0, 2.0]))),
    "extract_freq_components": (spectrum.extract_freq_components, lambda r: dict(bands=np.array([[0.01, 0.2], [0.3, 0.4]]))),
    "estimate_frequency": (fu.estimate_frequency, lambda r: dict(fs=gen.logu(r, 1, 1e9))),
    "fit_sine_4param": (fu.fit_sine_4param, lambda r: {}),
    "analyze_error_by_value": (aout.analyze_error_by_value, lambda r: dict(create_plot=False)),
    "analyze_error_by_phase": (aout.analyze_error_by_phase, lambda r: dict(create_plot=False)),
    "rearrange_error_by_value": (aout.rearrange_error_by_value, lambda r: {}),
    "rearrange_error_by_phase": (aout.rearrange_error_by_phase, lambda r: {}),
    "analyze_error_pdf": (aout.analyze_error_pdf, lambda r: dict(create_plot=False)),
    "analyze_error_autocorr": (aout.analyze_error_autocorr, lambda r: dict(create_plot=False)),
    "analyze_error_spectrum": (aout.analyze_error_spectrum, lambda r: dict(create_plot=False)),
    "analyze_error_envelope_spectrum": (aout.analyze_error_envelope_spectrum, lambda r: dict(create_plot=False)),
    "analyze_phase_plane": (aout.analyze_phase_plane, lambda r: dict(create_plot=False)),
    "analyze_error_phase_plane": (aout.analyze_error_phase_plane, lambda r: dict(create_plot=False)),
    "analyze_decomposition_time": (aout.analyze_decomposition_time, lambda r: dict(create_plot=False)),
    "analyze_decomposition_polar": (aout.analyze_decomposition_polar, lambda r: dict(create_plot=False)),
    "decompose_harmonic_error": (aout.decompose_harmonic_error, lambda r: {}),
    "decompose_harmonics": (aout.decompose_harmonics, lambda r: dict(disp=0)),
    "plot_error_hist_phase": (aout.plot_error_hist_phase, lambda r: dict(disp=0)),
    "plot_error_hist_code": (aout.plot_error_hist_code, lambda r: dict(disp=0)),
    "plot_error_pdf": (aout.plot_error_pdf, lambda r: dict(create_plot=False)),
    "plot_error_autocorr": (aout.plot_error_autocorr, lambda r: dict(create_plot=False)),
    "plot_envelope_spectrum": (aout.plot_envelope_spectrum, lambda r: dict(create_plot=False)),
    "aout.analyze_spectrum": (aout.analyze_spectrum, lambda r: dict(create_plot=False, n_thd=4)),
    "fit_static_nonlin": (aout.fit_static_nonlin, lambda r: dict(order=3)),
    "perfosr": (ov.perfosr, lambda r: dict(disp=0)),
    "ifilter": (ov.ifilter, lambda r: dict(passband=np.array([[0.0, 0.1], [0.2, 0.31]]))),
    "fractional_delay_fft": (ti.fractional_delay_fft, lambda r: dict(delay_sec=0.3, fs=1.0)),
    "fractional_delay_farrow": (ti.fractional_delay_farrow, lambda r: dict(delay_sec=-1.3, fs=1.0)),
    "deinterleave": (ti.deinterleave, lambda r: dict(M=4)),
    "extract_mismatch_sine": (ti.extract_mismatch_sine, lambda r: dict(M=4, fs=1e6)),
    "calibrate_foreground": (ti.calibrate_foreground, lambda r: dict(M=4, fs=1e6, params=ti_params(r))),
    "validate_aout_data": (fu.validate_aout_data, lambda r: {}),
}
GEN = [n for n in dir(ADC_Signal_Generator) if n.startswith("apply_")]


def ti_params(r):
    return {"offset": 1e-3 * r.standard_normal(4), "gain": 1 + 1e-3 * r.standard_normal(4), "skew": 1e-9 * r.standard_normal(4)}


def sine(rng, N=None, top=0.45):
    N = N or gen.pick(rng, [1024, 1000, 1536])
    b = gen.coprime_bin(rng, N, 12, int(top * N))
    A = gen.logu(rng, 0.05, 50)
    x = A * (np.cos(2 * np.pi * b * np.arange(N) / N + rng.uniform(0, 6.28)) + 0.003 * np.cos(4 * np.pi * b * np.arange(N) / N + 1)) + 1e-3 * A * rng.standard_normal(N) + A * rng.uniform(-0.5, 0.5)
    return x, b, N


def bits(rng, B=None, N=None):
    B, N = B or gen.ri(rng, 6, 11), N or 1024
    w = sarsim.weights(rng, B)
    for _ in range(99):
        b = gen.coprime_bin(rng, N, 20, N // 3)
        if gen.rich_phase(b / N, N):
            break
    return sarsim.sine_bits(rng, w, N, b / N, noise=1e-3), w * 2 ** B, b / N


def other(rng):
    """name -> (function, positional arguments, keyword arguments) for everything that does not take a sine record."""
    B, w, f = bits(rng)
    x, b, N = sine(rng)
    codes = np.clip(np.round(127.5 + 126 * np.cos(2 * np.pi * 1201 * np.arange(8192) / 8192 + 0.2)), 0, 255).astype(int)
    ramp = np.sort(rng.integers(0, 64, 4000))
    sr = lambda: np.random.default_rng(7)
    r = {
        "calibrate_weight_sine": (ca.calibrate_weight_sine, (B,), {}),
        "calibrate_weight_sine f": (ca.calibrate_weight_sine, (B,), dict(freq=f, nominal_weights=w * 1.0, harmonic_order=2)),
        "calibrate_weight_sine many": (ca.calibrate_weight_sine, ([B, B[::-1].copy()],), dict(freq=np.array([f, f]))),
        "calibrate_weight_sine_lite": (ca.calibrate_weight_sine_lite, (B, f), {}),
        "dout.calibrate_weight_sine": (dout.calibrate_weight_sine, (B,), dict(freq=f, order=1)),
        "analyze_bit_activity": (dout.analyze_bit_activity, (B,), dict(create_plot=False)),
        "check_bit_activity": (dout.check_bit_activity, (B,), dict(create_plot=False)),
        "analyze_overflow": (dout.analyze_overflow, (B, w), dict(create_plot=False)),
        "check_overflow": (dout.check_overflow, (B, w), dict(disp=0)),
        "analyze_enob_sweep": (dout.analyze_enob_sweep, (B,), dict(freq=f, create_plot=False)),
        "analyze_weight_radix": (dout.analyze_weight_radix, (w,), dict(create_plot=False)),
        "plot_weight_radix": (dout.plot_weight_radix, (w,), dict(create_plot=False)),
        "plot_residual_scatter": (dout.plot_residual_scatter, (B @ w, B), dict(create_plot=False)),
        "validate_dout_data": (fu.validate_dout_data, (B,), {}),
        "compute_inl_from_sine": (aout.compute_inl_from_sine, (codes,), dict(num_bits=8)),
        "analyze_inl_from_sine": (aout.analyze_inl_from_sine, (codes,), dict(num_bits=8, create_plot=False)),
        "compute_inl_from_ramp": (aout.compute_inl_from_ramp, (ramp,), dict(num_bits=6)),
        "analyze_inl_from_ramp": (aout.analyze_inl_from_ramp, (ramp,), dict(num_bits=6, create_plot=False)),
        "interleave": (ti.interleave, (rng.standard_normal((4, 50)),), {}),
        "predict_spurs": (ti.predict_spurs, (dict(ti_params(rng), gain=1 + 1e-3 * rng.standard_normal(4)), 1e6), dict(fin=1.2e5)),
        "compute_spectrum runs": (spectrum.compute_spectrum, (np.vstack([x, x[::-1]]),), dict(max_scale_range=[-60.0, 60.0])),
        "compute_spectrum coherent": (spectrum.compute_spectrum, (np.vstack([x, np.roll(x, 5)]),), dict(coherent_averaging=True, win_type="rectangular")),
        "ntf_analyzer": (ov.ntf_analyzer, (([1.0, -1.0], [1.0, 0.0]), 0.0, 0.05), {}),
        "ntfperf": (ov.ntfperf, (([1.0, -1.0], [1.0, 0.0]), 0.0, 0.05), {}),
        "convert_cap_to_weight": (fu.convert_cap_to_weight, (np.array([1.0, 2, 4, 8]), np.array([0, 3.0, 0, 0]), np.array([0, 0.1, 0, 0])), {}),
        "amplitudes_to_snr": (fu.amplitudes_to_snr, (rng.random(4) + 1, rng.random(4) * 0.1 + 0.01), {}),
        "snr_to_nsd": (fu.snr_to_nsd, (rng.random(4) * 60, 1e6), {}),
        "nsd_to_snr": (fu.nsd_to_snr, (-rng.random(4) * 60 - 90, 1e6), {}),
        "db_to_mag": (fu.db_to_mag, (rng.standard_normal(5),), {}),
        "mag_to_db": (fu.mag_to_db, (rng.random(5) + 0.1,), {}),
        "db_to_power": (fu.db_to_power, (rng.standard_normal(5),), {}),
        "power_to_db": (fu.power_to_db, (rng.random(5) + 0.1,), {}),
        "snr_to_enob": (fu.snr_to_enob, (rng.random(5) * 90,), {}),
        "enob_to_snr": (fu.enob_to_snr, (rng.random(5) * 12,), {}),
        "lsb_to_volts": (fu.lsb_to_volts, (rng.random(5) * 90, 1.2, 10), {}),
        "volts_to_lsb": (fu.volts_to_lsb, (rng.random(5), 1.2, 10), {}),
        "bin_to_freq": (fu.bin_to_freq, (np.arange(5), 1e6, 1024), {}),
        "freq_to_bin": (fu.freq_to_bin, (rng.random() * 4e5, 1e6, 1024), {}),
        "dbm_to_vrms": (fu.dbm_to_vrms, (rng.random(5),), {}),
        "vrms_to_dbm": (fu.vrms_to_dbm, (rng.random(5) + 0.1,), {}),
        "dbm_to_mw": (fu.dbm_to_mw, (rng.random(5),), {}),
        "mw_to_dbm": (fu.mw_to_dbm, (rng.random(5) + 0.1,), {}),
        "sine_amplitude_to_power": (fu.sine_amplitude_to_power, (rng.random(5),), {}),
        "fold_frequency_to_nyquist": (fu.fold_frequency_to_nyquist, (rng.random(5) * 5e6, 1e6), {}),
        "fold_bin_to_nyquist": (fu.fold_bin_to_nyquist, (gen.ri(rng, 0, 5000), 1024), {}),
        "find_coherent_frequency": (fu.find_coherent_frequency, (1e6, 1e5 * rng.random() + 1e4, 1024), {}),
        "sar_ideal_weights": (models.sar_ideal_weights, (gen.ri(rng, 4, 12),), {}),
        "sar_convert": (models.sar_convert, (rng.random(200), w / w.sum()), dict(sampling_noise_rms=1e-3, comparator_noise_rms=1e-3, rng=sr)),
        "sar_convert quiet": (models.sar_convert, (rng.random(200), w / w.sum()), {}),
        "sar_reconstruct": (models.sar_reconstruct, (B, w / w.sum()), {}),
        "sar_apply_mismatch": (models.sar_apply_mismatch, (w,), dict(sigma=0.01, rng=sr)),
        "sar_apply_cap_mismatch": (models.sar_apply_cap_mismatch, (w,), dict(sigma=0.01, rng=sr)),
    }
    return r


def names():
    return sorted(REC) + sorted(other(np.random.default_rng(0))) + ["gen." + g for g in GEN]


def make(name, rng):
    """-> zero-argument factory of (function, args, kwargs) with fresh, equal argument objects each time."""
    if name in REC:
        fn, opt = REC[name]
        x = sine(rng, top=0.11 if name == "calibrate_foreground" else 0.45)[0]
        if name in ("analyze_phase_plane",):
            x[100] *= 9
        kw = opt(rng)
        return fn, (x,), kw
    if name.startswith("gen."):
        x, b, N = sine(rng, 1024)
        x = 0.5 + 0.4 * x / np.abs(x).max()
        kw = {}
        if "static_nonlinearity_hd" in name:
            kw = dict(hd2_dB=-50.0, hd3_dB=-60.0)
        elif "static_nonlinearity" in name:
            kw = dict(k2=0.01, k3=0.02)
        g = ADC_Signal_Generator(N=N, Fs=1e9, Fin=b / N * 1e9, A=0.4, DC=0.5)
        return getattr(g, name[4:]), (x,), kw
    return other(rng)[name]
