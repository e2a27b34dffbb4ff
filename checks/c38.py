"""C38: every error analysis removes exactly the sine the requested fit settings give, and reports that fit."""
import contextlib
import io
import sys
import warnings
import _boot  # noqa: F401
import vmon
import gen
import numpy as np
from adctoolbox import aout, fundamentals as fu

PROPERTY = "C38"
RULE = ("off-bin tones with distortion and noise through every error analysis with random start frequency, iteration limit and tolerance; "
        "non-trivial = the settings differ from the defaults and matter for the fit")
REQUIRED_ORACLES = ["removed sine", "reported fit", "not reported", "iteration limit", "convergence", "start frequency", "more iterations", "fixed frequency", "applied step", "decomposition", "matrix", "plot independence", "progress output", "not-converged warning"]
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}
KEYS = ["frequency", "amplitude", "phase", "dc_offset", "rmse", "converged", "n_iterations", "initial_frequency", "last_delta_freq"]
ANALYSES = ["pdf", "autocorr", "spectrum", "envelope", "value", "phase", "value core", "phase core", "decomposition", "decomposition time", "decomposition polar"]


def cases(rng, tier):
    kinds = ANALYSES + ["fit", "fit"]
    for i in range(1300 if tier == "quick" else 9100):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [256, 500, 1024, 1531], 0.04)
    n = np.arange(N)
    off = rng.uniform(-0.5, 0.5)
    f = (gen.ri(rng, 12, N // 2 - 12) + off) / N
    A = gen.logu(rng, 0.05, 500)
    dc = A * rng.uniform(-0.6, 0.6)
    p = 2 * np.pi * f * n + rng.uniform(0, 6.28)
    x = A * (np.cos(p) + 10 ** rng.uniform(-4, -2) * np.cos(2 * p + 1)) + dc + A * 10 ** rng.uniform(-4, -1.5) * rng.standard_normal(N)
    keep = x.copy()
    kw = {}
    u = rng.random()
    if u < 0.6:
        kw["max_iterations"] = gen.pick(rng, [0, 1, 2, 3, 10, 40])
    if rng.random() < 0.5:
        kw["tolerance"] = gen.pick(rng, [1e-3, 1e-5, 1e-7, 1e-12])
    f0 = None
    if rng.random() < 0.6:
        f0 = float(np.clip(f + rng.uniform(-0.45, 0.45) / N, 1e-3, 0.499))
    direct = m.call(fu.fit_sine_4param, x, frequency_estimate=f0, **kw)
    m.nontrivial(bool(kw) or f0 is not None)
    lim, tol = kw.get("max_iterations", 1), kw.get("tolerance", 1e-9)
    m.check("iteration limit", direct["n_iterations"] <= lim, lambda: "%d refinements, at most %d requested" % (direct["n_iterations"], lim))
    ld = abs(direct["last_delta_freq"])
    if lim == 0:
        m.check("fixed frequency", direct["frequency"] == direct["initial_frequency"] and bool(direct["converged"]) and direct["n_iterations"] == 0, "no refinement requested but the frequency moved or the fit reports no convergence")
        B = np.column_stack([np.cos(2 * np.pi * direct["frequency"] * n), np.sin(2 * np.pi * direct["frequency"] * n), np.ones(N)])
        best = np.linalg.lstsq(B, x, rcond=None)[0]
        m.close("fixed frequency", direct["fitted_signal"], B @ best, atol=1e-8 * A, what="three-parameter fit at the given frequency")
    else:
        m.check("convergence", bool(direct["converged"]) == bool(ld < tol), lambda: "converged=%s with a last step of %.3g and tolerance %.3g" % (direct["converged"], ld, tol))
        if not direct["converged"]:
            m.equal("iteration limit", int(direct["n_iterations"]), lim, "refinements run without convergence")
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                fu.fit_sine_4param(x, frequency_estimate=f0, **kw)
            m.check("not-converged warning", any(issubclass(w.category, RuntimeWarning) for w in got), "no warning for a fit that did not converge")
        else:
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                fu.fit_sine_4param(x, frequency_estimate=f0, **kw)
            m.check("not-converged warning", not got, lambda: "warning for a converged fit: %s" % got[0].message)
    if f0 is not None:
        m.equal("start frequency", float(direct["initial_frequency"]), f0, "start frequency")
    else:
        m.close("start frequency", direct["initial_frequency"], f, atol=1.2 / N, what="automatic start frequency")

    if direct["n_iterations"] == 1:
        m.close("applied step", direct["frequency"], np.clip(direct["initial_frequency"] + direct["last_delta_freq"], 1e-10, 0.5 - 1e-10), rtol=1e-12, what="frequency after the single reported update")

    if kind == "fit":
        many = m.call(fu.fit_sine_4param, x, frequency_estimate=f0, max_iterations=40, tolerance=1e-12)
        if lim >= 1 and many["converged"] and abs(many["frequency"] - f) < 0.2 / N:
            m.check("more iterations", many["rmse"] <= direct["rmse"] * (1 + 1e-6), lambda: "rms error %.6g after 40 iterations, %.6g after %d" % (many["rmse"], direct["rmse"], lim))
        with contextlib.redirect_stdout(io.StringIO()) as said:
            loud = m.call(fu.fit_sine_4param, x, frequency_estimate=f0, verbose=1, **kw)
        m.close("progress output", loud["fitted_signal"], direct["fitted_signal"], atol=0, what="fit with progress output")
        with contextlib.redirect_stdout(io.StringIO()) as quiet:
            fu.fit_sine_4param(x, frequency_estimate=f0, **kw)
        m.check("progress output", not quiet.getvalue(), lambda: "printed without being asked: %r" % quiet.getvalue()[:80])
        m.check("progress output", bool(said.getvalue().strip()) or not direct["n_iterations"], "no progress output although asked for")
        y = np.column_stack([x, x[::-1] * 1.5 + 0.1])
        both = m.call(fu.fit_sine_4param, y, frequency_estimate=f0, **kw)
        second = m.call(fu.fit_sine_4param, y[:, 1], frequency_estimate=f0, **kw)
        for k in KEYS:
            m.close("matrix", np.asarray(both[k], float), [float(direct[k]), float(second[k])], rtol=1e-12, what="%s of each column" % k)
        m.close("matrix", both["fitted_signal"], np.column_stack([direct["fitted_signal"], second["fitted_signal"]]), rtol=1e-12, atol=1e-12 * A, what="fitted columns")
        return

    plot = rng.random() < 0.06
    kw2 = dict(kw)
    if kind in ("decomposition", "decomposition time", "decomposition polar"):
        z = x - x.mean()
        ref = m.call(fu.fit_sine_4param, z, frequency_estimate=f0, **kw)
        H = gen.ri(rng, 2, 7)
        fn = {"decomposition": aout.decompose_harmonic_error, "decomposition time": aout.analyze_decomposition_time, "decomposition polar": aout.analyze_decomposition_polar}[kind]
        kw2["n_harmonics" if kind == "decomposition" else "harmonic"] = H
        if kind != "decomposition":
            kw2["create_plot"] = False
        if f0 is not None:
            kw2["frequency"] = f0
        g = m.call(fn, x, **kw2)
        m.close("decomposition", g["fundamental_freq"], ref["frequency"], rtol=1e-12, what="frequency used for the decomposition")
        w = 2 * np.pi * g["fundamental_freq"] * n
        B = np.column_stack([np.ones(N)] + [t(k * w) for k in range(1, H + 1) for t in (np.cos, np.sin)])
        q = np.linalg.lstsq(B, x, rcond=None)[0]
        if np.linalg.cond(B) < 1e3:
            m.close("decomposition", g["noise_residual"], x - B @ q, atol=1e-7 * A, what="what is left after removing the harmonics at that frequency")
        m.equal("removed sine", x, keep, "caller's record")
        return
    fs = gen.logu(rng, 1, 1e9)
    fn, name, extra = {
        "pdf": (aout.analyze_error_pdf, "frequency", {}), "autocorr": (aout.analyze_error_autocorr, "frequency", {}), "spectrum": (aout.analyze_error_spectrum, "frequency", {"fs": fs}),
        "envelope": (aout.analyze_error_envelope_spectrum, "frequency", {"fs": fs}), "value": (aout.analyze_error_by_value, "norm_freq", {}), "phase": (aout.analyze_error_by_phase, "norm_freq", {}),
        "value core": (aout.rearrange_error_by_value, "norm_freq", {"value_range": (x.min() - 0.1 * A, x.max() + 0.1 * A)}), "phase core": (aout.rearrange_error_by_phase, "norm_freq", {})}[kind]
    if f0 is not None:
        kw2[name] = f0
    if "core" not in kind:
        kw2["create_plot"] = False
    kw2.update(extra)
    g = m.call(fn, x, return_fit=True, **kw2)
    m.equal("removed sine", x, keep, "caller's record")
    for k in KEYS:
        m.close("reported fit", float(g["fit"][k]), float(direct[k]), rtol=1e-9, atol=1e-12 * A if k in ("phase", "dc_offset", "rmse") else 1e-15, what="%s of the reported fit (%s)" % (k, kind))
    want = np.asarray(direct["residuals"])
    if kind == "pdf":
        got = np.asarray(g["err_lsb"]) * np.ptp(x) / 2.0 ** 12
    elif kind in ("value", "phase", "value core", "phase core"):
        got = np.asarray(g["error"])
        m.close("removed sine", g["fitted_signal"], direct["fitted_signal"], atol=1e-9 * A, what="fitted sine (%s)" % kind)
    else:
        got = np.asarray(g["error_signal"])
    if kind == "envelope":
        m.check("removed sine", got.shape in ((N,), want.shape), "shape of the error record")
    m.close("removed sine", got, want, atol=1e-9 * A, what="error record (%s)" % kind)
    quiet = m.call(fn, x, **kw2)
    m.check("not reported", "fit" not in quiet, "fit reported without being asked for")
    for k in quiet:
        if k in ("mu", "sigma", "acf", "sndr_dbc", "enob", "error_mean", "bin_error_rms_v", "pdf", "noise_floor_dbfs"):
            m.close("not reported", np.asarray(quiet[k], float), np.asarray(g[k], float), rtol=1e-12, what="%s with and without the fit report" % k)
    if plot and "core" not in kind:
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            d = m.call(fn, x, return_fit=True, **dict(kw2, create_plot=True))
            for k in KEYS:
                m.close("plot independence", float(d["fit"][k]), float(direct[k]), rtol=1e-9, atol=1e-12 * A if k in ("phase", "dc_offset", "rmse") else 1e-15, what="%s of the fit while plotting (%s)" % (k, kind))
            if "error_signal" in d:
                m.close("plot independence", d["error_signal"], want, atol=1e-9 * A, what="error record while plotting (%s)" % kind)
        finally:
            plt.close("all")
    m.sample(analysis=kind, limit=lim, tolerance=tol, start=f0, iterations=int(direct["n_iterations"]), converged=bool(direct["converged"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
