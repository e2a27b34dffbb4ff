"""C39: arguments that cannot be used are refused, the nearest usable ones are accepted, doubtful ones draw a warning."""
import contextlib
import io
import sys
import warnings
import _boot  # noqa: F401
import vmon
import gen
import api
import numpy as np
import matplotlib.pyplot as plt
from adctoolbox import aout, dout, spectrum, fundamentals as fu, calibration as ca, models, oversampling as ov, timeinterleave as ti
from adctoolbox.siggen import ADC_Signal_Generator

PROPERTY = "C39"
RULE = ("pairs of calls on random data: one argument just outside its usable range (must be refused with a value error) and just inside (must be accepted); "
        "non-trivial = both calls of the pair were made")
REQUIRED_ORACLES = ["refused", "accepted", "warned", "silent"]
MIN_NONTRIVIAL = {"quick": 300, "thorough": 2500}
NAN, INF = float("nan"), float("inf")


def sine(rng, N=512):
    b = gen.coprime_bin(rng, N, 20, N // 2 - 20)
    return np.cos(2 * np.pi * b * np.arange(N) / N + rng.uniform(0, 6.28)) + 1e-3 * rng.standard_normal(N), b / N


def table(rng):
    """name -> (function, [refused argument sets], [accepted argument sets])"""
    x, f = sine(rng)
    N = x.size
    runs = np.stack([x, x + 1e-3 * rng.standard_normal(N)])
    B = gen.ri(rng, 4, 9)
    bits = api.bits(rng)[0] if isinstance(api.bits(rng), tuple) else api.bits(rng)
    bits = np.asarray(bits)
    nb = bits.shape[1]
    w = models.sar_ideal_weights(B)
    M = gen.pick(rng, [2, 3, 4, 8])
    tx = rng.standard_normal(M * 64)
    par = dict(offset=1e-3 * rng.standard_normal(M), gain=1 + 1e-3 * rng.standard_normal(M), skew=1e-3 * rng.standard_normal(M), fin=0.11)
    ch = rng.standard_normal((M, 16))
    codes = rng.integers(0, 2 ** B, 4000)
    near = codes.astype(float)
    near[gen.ri(rng, 0, 4000)] += gen.pick(rng, [0.5, 0.05, -0.3, 1e-6])
    hole = codes.astype(float)
    hole[gen.ri(rng, 0, 4000)] = gen.pick(rng, [NAN, INF, -INF])
    xn = x.copy()
    xn[gen.ri(rng, 0, N)] = gen.pick(rng, [NAN, INF])
    g = ADC_Signal_Generator(N=256, Fs=1e6, Fin=1e5, A=0.4, DC=0.5)
    y = 0.5 + 0.4 * np.sin(0.3 * np.arange(256))
    eps = gen.pick(rng, [1e-9, 1e-3, 0.2, 40.0])
    i = gen.ri(rng, 0, B)

    def at(v, k, val):
        v = np.array(v, float)
        v[k] = val
        return v

    def P(*a, **k):
        return a, k
    T = {}
    T["spectrum"] = (spectrum.compute_spectrum,
                     [P(np.zeros((2, 2, 32))), P(x, osr=0), P(x, osr=-eps), P(x, max_scale_range=(0, 1, 2)), P(x, max_scale_range=[1]), P(x, nf_method=5), P(x, nf_method=-1)],
                     [P(x), P(runs), P(x, osr=1), P(x, max_scale_range=(-1, 1)), P(x, max_scale_range=[-1, 1]), P(x, max_scale_range=2.0), P(x, nf_method=4), P(x, nf_method=0), P(list(x))])
    T["sine fit"] = (fu.fit_sine_4param, [P(np.zeros((2, 3, 64)))], [P(x, max_iterations=20, frequency_estimate=f), P(x[:, None], max_iterations=20), P(runs.T, max_iterations=20)])
    n = gen.pick(rng, [256, 1000, 1024])
    T["coherent frequency"] = (fu.find_coherent_frequency, [P(1e6, 1e6 * 0.5, n, search_radius=0), P(1e6, 0.0, n, search_radius=0)], [P(1e6, 1e6 * 7 / n, n), P(1e6, 1e6 * 0.13, n)])
    cd, cb, cp = np.ones(B), np.zeros(B), np.zeros(B)
    T["capacitors"] = (fu.convert_cap_to_weight, [P(cd, cb[1:], cp), P(cd, cb, cp[1:]), P(cd[1:], cb, cp), P(np.append(cd, 1), cb, cp)], [P(cd, cb, cp)])
    T["calibration"] = (ca.calibrate_weight_sine,
                        [P([]), P(np.zeros((0, 4))), P([bits, bits[:, 1:]], freq=0.1), P([bits, np.zeros((0, nb))], freq=0.1), P(bits, freq=0.5 + eps), P([bits, bits], freq=[0.1, 0.5 + eps]), P(bits, freq=0.1, nominal_weights=np.ones(nb - 1)),
                         P(bits, freq=0.1, nominal_weights=np.ones(nb + 1)), P([bits, bits], freq=[0.1, 0.2, 0.1])],
                        [P(bits, freq=0.123), P([bits, bits], freq=[0.123, 0.1234]), P(bits, freq=0.123, nominal_weights=2.0 ** np.arange(nb)[::-1]), P(bits.astype(float), freq=0.123)])
    T["simple calibration"] = (ca.calibrate_weight_sine_lite, [P(bits, 0.5 + eps)], [P(bits, 0.123)])
    T["ideal range"] = (models.sar_convert,
                        [P(x, w, (0, 1, 2)), P(x, w, (1,)), P(x, w, (0, NAN)), P(x, w, (-INF, 0)), P(x, w, (0, INF)), P(x, w, (1, 1)), P(x, w, (1, 1 - eps)), P(x, w, (NAN, 1))],
                        [P(x, w, (-1, 1)), P(x, w, [0, 1e-6]), P(x, list(w)), P(0.3, w), P(runs, w)])
    c = models.sar_convert(x, w)
    T["output range"] = (models.sar_reconstruct, [P(c, w, (0, 1, 2)), P(c, w, (0, NAN)), P(c, w, (-INF, 0)), P(c, w, (1, 1)), P(c, w, (1, 1 - eps))], [P(c, w), P(c, w, (-1, 1)), P(c, list(w), [0, 2])])
    T["mismatch"] = (models.sar_apply_cap_mismatch,
                     [P(w[None, :], 0.01), P([], 0.01), P(at(w, i, NAN), 0.01), P(at(w, i, INF), 0.01), P(at(w, i, 0.0), 0.01), P(at(w, i, -eps), 0.01), P(w, -eps), P(w, NAN), P(w, INF), P(w, 0.01, cap_units=np.ones(B + 1)), P(w, 0.01, cap_units=np.ones(B - 1)), P(w, 0.01, cap_units=[2.0]), P(w, 0.01, cap_units=2.0),
                      P(w, 0.01, cap_units=at(np.ones(B), i, 0)), P(w, 0.01, cap_units=at(np.ones(B), i, -1)), P(w, 0.01, cap_units=at(np.ones(B), i, NAN)), P(w, 0.01, cap_units=at(np.ones(B), i, INF))],
                     [P(w, 0.0), P(w, 0.01), P(list(w), 0.01), P(w, 0.01, cap_units=np.ones(B)), P(w, 0.01, cap_units=[1e-9] * B)])
    T["deinterleave"] = (ti.deinterleave, [P(tx, 0), P(tx, -M), P(tx[:-1], M), P(np.append(tx, 0), M), P(tx.reshape(M, -1), M)], [P(tx, M), P(tx, 1), P(list(tx), M), P(tx[:M], M)])
    T["interleave"] = (ti.interleave, [P(tx), P(np.zeros((2, 2, 2)))], [P(ch), P(ch[:1]), P(ch.tolist())])
    T["mismatch extraction"] = (ti.extract_mismatch_sine, [P(x[:240].reshape(2, -1), 2, 1.0), P(x[None, :240], 2, 1.0, f), P(x[:240, None], 2, 1.0, f), P(x[:240], 0, 1.0, 0.1), P(x[:240], -2, 1.0, 0.1), P(x[:239], 4, 1.0, 0.1), P(x[:242], 4, 1.0, 0.1)], [P(x[:240], 4, 1.0, f), P(x[:240], 2, 1.0), P(list(x[:240]), 4, 1.0, f)])
    meth = gen.pick(rng, ["linear", "", "FFT ", "sinc"])
    T["interleave correction"] = (ti.calibrate_foreground,
                                  [P(tx, M, dict(par, gain=par["gain"][1:]), 1.0), P(tx, M, dict(par, offset=np.append(par["offset"], 0)), 1.0), P(tx, M, dict(par, skew=par["skew"][1:]), 1.0), P(tx, M, par, 1.0, skew_method=meth), P(tx[1:], M, par, 1.0),
                                   P(tx, M, par, 1.0, skew_method="farrow", n_taps=4)],
                                  [P(tx, M, par, 1.0), P(tx, M, par, 1.0, skew_method="farrow"), P(tx, M, {k: list(v) if np.ndim(v) else v for k, v in par.items()}, 1.0), P(tx, M, par, 1.0, skew_method="farrow", n_taps=3)])
    nofin = {k: v for k, v in par.items() if k != "fin"}
    T["spur prediction"] = (ti.predict_spurs, [P(nofin, 1.0), P(dict(par, offset=par["offset"][1:]), 1.0), P(dict(par, skew=np.append(par["skew"], 0)), 1.0)], [P(par, 1.0), P(nofin, 1.0, fin=0.11)])
    T["polynomial delay"] = (ti.fractional_delay_farrow, [P(tx.reshape(2, -1), 0.1, 1.0), P(tx, 0.1, 1.0, n_taps=2), P(tx, 0.1, 1.0, n_taps=6), P(tx, 0.1, 1.0, n_taps=0), P(tx, 0.1, 1.0, n_taps=-1)], [P(tx, 0.1, 1.0, n_taps=3), P(list(tx), 0.1, 1.0), P(tx, -0.4, 1.0, n_taps=9)])
    T["spectral delay"] = (ti.fractional_delay_fft, [P(tx.reshape(2, -1), 0.1, 1.0), P(0.5, 0.1, 1.0)], [P(tx, 0.1, 1.0), P(list(tx), -3.2, 1.0)])
    mode = gen.pick(rng, ["coarse", "residue", "Coarse_path", ""])
    T["stage gain"] = (g.apply_ra_gain_error, [P(y, mode=mode)], [P(y, mode="coarse_path"), P(y, mode="residue_path")])
    T["dynamic stage gain"] = (g.apply_ra_gain_error_dynamic, [P(y, mode=mode)], [P(y, mode="coarse_path"), P(y, mode="residue_path")])
    T["noise shaping"] = (g.apply_noise_shaping, [P(y, order=0), P(y, order=6), P(y, order=-1), P(y, order=1.5)], [P(y, order=k) for k in (1, 2, 3, 4, 5)])
    for nm, fn in (("band filter", ov.ifilter), ("band extraction", spectrum.extract_freq_components if hasattr(spectrum, "extract_freq_components") else ov.ifilter)):
        T[nm] = (fn, [P(x + 1j, [0.1, 0.2]), P(x, [0.1, 0.2, 0.3]), P(x, [[0.1], [0.2]]), P(x, [-eps, 0.2]), P(x, [0.1, 0.5 + eps]), P(x, [[0.1, 0.2], [0.3, 0.5 + eps]])], [P(x, [0.0, 0.5]), P(x, [[0.1, 0.2], [0.3, 0.4]]), P(x, [0.2, 0.2]), P(list(x), [0.1, 0.2])])
    T["ratio sweep"] = (ov.perfosr, [P(x, harmonic=0), P(x, harmonic=-2), P(x, harmonic=2.5), P(x, smooth=0), P(x, smooth=0.5), P(x, smooth=-1), P(x, osr=[1, 0]), P(x, osr=[2, -eps])], [P(x, harmonic=1), P(x, harmonic=3.0), P(x, smooth=1), P(x, osr=[1, 1.5, 4])])
    T["overflow"] = (dout.analyze_overflow, [P(bits, np.ones(nb + 1), create_plot=False), P(bits, np.ones(nb - 1), create_plot=False), P(bits, [1.0], create_plot=False)], [P(bits, np.ones(nb), create_plot=False), P(bits, [1.0] * nb, create_plot=False)])
    s = bits @ (2.0 ** np.arange(nb)[::-1])
    T["residual scatter"] = (dout.plot_residual_scatter, [P(s[1:], bits, create_plot=False), P(np.append(s, 0), bits, create_plot=False), P(s[:1], bits, create_plot=False)], [P(s, bits, create_plot=False)])
    T["static nonlinearity"] = (aout.fit_static_nonlin, [P(x, 1), P(x, 0), P(x, -2), P(x, 2.5), P(x[:4], 3), P(x[:3], 3), P(x * 1e-12, 3)], [P(x, 2), P(x, np.int64(3)), P(x, 5)])
    T["value grouping"] = (aout.rearrange_error_by_value,
                           [P([]), P(xn), P(x, n_bins=0), P(x, n_bins=-1), P(x, n_bins=2.5), P(x, clip_percent=-eps), P(x, clip_percent=NAN), P(x, clip_percent=0.5), P(x, value_range=(1, 1)), P(x, value_range=(1, 0)), P(x, value_range=(0, INF)), P(x, value_range=(NAN, 1)), P(x, value_range=(0, 1, 2)), P(xn, value_range=(-2, 2)), P(x, value_range=(5, 6)), P(x, value_range=(-6, -5), clip_percent=0.1)],
                           [P(x, n_bins=2), P(x, n_bins=np.int32(20)), P(x, clip_percent=0), P(x, clip_percent=0.49, n_bins=100), P(x, value_range=[-1.5, 1.5])])
    T["phase plane"] = (aout.analyze_phase_plane, [P(x, lag=N, create_plot=False), P(x, lag=N + 5, create_plot=False)], [P(x, lag=N // 2, create_plot=False), P(x, lag=1, create_plot=False), P(x, lag="auto", create_plot=False)])
    T["error phase plane"] = (aout.analyze_error_phase_plane, [P(x, unit_mode="lsb", create_plot=False), P(x, unit_mode="", create_plot=False)], [P(x, unit_mode=u, create_plot=False) for u in ("auto", "normalized_fs", "voltage", "code")])
    top = 2 ** B - 1
    bad = [P([]), P(hole), P(near), P(codes, num_bits=0), P(codes, num_bits=-3), P(codes, num_bits=4.5), P(codes, code_min=0.5), P(codes, code_max=top + 0.5), P(codes, code_min=10, code_max=5), P(codes, code_min=top + 1), P(np.append(codes, top + 1), num_bits=B), P(np.append(codes, -1), num_bits=B),
           P(codes, endpoint="line"), P(codes, endpoint=None), P(np.full(50, 3), num_bits=B, code_min=0, code_max=1), P(np.tile([0, top], 30), num_bits=B)]
    ok = [P(codes, num_bits=B), P(codes.astype(float), num_bits=B), P(codes, num_bits=np.int64(B)), P(codes), P(codes - 5, num_bits=B, code_min=-5), P(codes, endpoint="fit"), P(codes, endpoint="none"), P(codes, endpoint="endpoints", num_bits=B), P(list(codes), num_bits=B), P(codes.astype(np.uint8), num_bits=B)]
    T["ramp"] = (aout.compute_inl_from_ramp, bad, ok)
    T["ramp analysis"] = (aout.analyze_inl_from_ramp, [P(*a, create_plot=False, **k) for a, k in bad] + [P(codes, num_bits=B, input_type="voltage", create_plot=False), P(codes, input_type="", create_plot=False)], [P(*a, create_plot=False, **k) for a, k in ok] + [P(codes, input_type="codes", create_plot=False)])
    return T


def warned(fn, *a, **k):
    with warnings.catch_warnings(record=True) as got, contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("always")
        fn(*a, **k)
    return [w.category for w in got], out.getvalue()


def warnings_case(rng, m):
    x, f = sine(rng)
    N = x.size
    runs = np.stack([x + 1e-3 * rng.standard_normal(N) for _ in range(3)])
    fs = gen.logu(rng, 1, 1e9)
    apart = np.cos(2 * np.pi * 67 * np.arange(N) / N + rng.uniform(0, 6.28)) + 1e-3 * rng.standard_normal(N)  # no harmonic near the tone
    cs = spectrum.compute_spectrum
    noisy = [("columns are runs", cs, (runs.T,), {}), ("cutoff beyond half the rate", cs, (x,), dict(fs=fs, cutoff_freq=fs * rng.uniform(0.5, 2))), ("high polynomial order", aout.fit_static_nonlin, (x, gen.ri(rng, 11, 14)), {}),
             ("fit without convergence", fu.fit_sine_4param, (x + 0.3 * rng.standard_normal(N),), dict(frequency_estimate=f + 0.3 / N, max_iterations=1, tolerance=1e-13)),
             ("no noise bins left", cs, (np.cos(2 * np.pi * 3 * np.arange(16) / 16) + 1e-3 * rng.standard_normal(16),), dict(side_bin=9, win_type="rectangular", nf_method=4))]
    calm = [("runs as rows", cs, (runs,), {}), ("cutoff in band", cs, (x,), dict(fs=fs, cutoff_freq=fs * 1e-3)), ("no cutoff", cs, (x,), dict(fs=fs)), ("moderate order", aout.fit_static_nonlin, (x, 5), {}), ("long fit", fu.fit_sine_4param, (x,), dict(max_iterations=50)),
            ("spectrum", spectrum.analyze_spectrum, (apart,), dict(create_plot=False)), ("stem spectrum", spectrum.analyze_spectrum_virtuoso, (apart,), dict(create_plot=False))]
    for name, fn, a, k in noisy:
        try:
            got, _ = warned(fn, *a, **k)
        except ValueError as e:
            m.check("warned", False, "%s: refused (%s)" % (name, e))
            continue
        m.check("warned", bool(got), "no warning: %s" % name)
    for name, fn, a, k in calm:
        got, out = warned(fn, *a, **k)
        if name == "moderate order":
            got = [q for q in got if q is not RuntimeWarning]  # the one-step fit inside may not have converged
        m.check("silent", not got and not out, lambda: "%s: warned %s, printed %r" % (name, got, out[:100]))
    # a harmonic that folds back onto the tone is announced
    c = np.cos(np.pi / 2 * np.arange(512) + 0.3) + 1e-3 * rng.standard_normal(512)
    for fn in (spectrum.analyze_spectrum, spectrum.analyze_spectrum_virtuoso):
        got, out = warned(fn, c, create_plot=False)
        m.check("warned", "3" in out and "arm" in out, "harmonic on top of the tone is not announced (%s)" % fn.__name__)


def drawing_case(rng, m):
    x, _ = sine(rng)
    r = aout.decompose_harmonic_error(x)
    m.nontrivial()
    for fn, keys, extra in ((aout.plot_decomposition_polar, ["magnitudes", "phases", "magnitudes_db", "noise_db"], ()), (aout.plot_decomposition_time, ["fundamental_signal", "harmonic_signal", "noise_residual", "fundamental_freq"], (x,))):
        for k in keys:
            part = {q: v for q, v in r.items() if q != k}
            try:
                fn(part, *extra)
                m.check("refused", False, "%s drawn without %s" % (fn.__name__, k))
            except ValueError:
                m.check("refused", True)
            plt.close("all")
        fn(r, *extra)
        plt.close("all")
        m.check("accepted", True)
    fig = plt.figure()
    flat = fig.add_subplot(111)
    with contextlib.redirect_stdout(io.StringIO()):
        m.expect_raise("refused", ValueError, spectrum.analyze_spectrum_polar, x, ax=flat)
    plt.close("all")


def cases(rng, tier):
    names = sorted(table(np.random.default_rng(0)))
    for i in range(30 if tier == "quick" else 250):
        for n in names:
            yield {"seed": gen.seed_of(rng), "kind": n}
        yield {"seed": gen.seed_of(rng), "kind": "warnings"}
        yield {"seed": gen.seed_of(rng), "kind": "drawing"}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "warnings":
        return warnings_case(rng, m)
    if c["kind"] == "drawing":
        return drawing_case(rng, m)
    fn, bad, good = table(rng)[c["kind"]]
    name = c["kind"]
    for a, k in bad:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.expect_raise("refused", ValueError, fn, *a, **k)
        m.nontrivial()
    for a, k in good:
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(*a, **k)
            m.check("accepted", r is not None, "%s returned nothing" % name)
        except Exception as e:
            m.check("accepted", False, "%s: usable arguments refused: %s: %s (options %s)" % (name, type(e).__name__, e, {q: v for q, v in k.items() if np.ndim(v) == 0}))
    m.sample(group=name, refused=len(bad), accepted=len(good))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
