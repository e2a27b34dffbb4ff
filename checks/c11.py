"""C11 sine fitting recovers the parameters of a noisy sine and is a least-squares fit."""
import sys
import warnings
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox import fit_sine_4param, estimate_frequency
from adctoolbox.common import fit_sine

PROPERTY = "C11"
RULE = ("random amplitude, offset, phase, frequency (coherent or not, near DC and near Nyquist), length and noise; non-trivial = off-bin frequency "
        "or a multi-channel record")
REQUIRED_ORACLES = ["frequency", "amplitude", "offset", "phase", "consistency", "least squares", "channels", "convergence flag", "rejects 3-D", "estimate", "few periods"]
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2000}


def cases(rng, tier):
    for i in range(4000 if tier == "quick" else 20000):
        yield {"seed": gen.seed_of(rng), "kind": ["free", "free", "fixed", "multi", "converge"][i % 5] if i % 40 != 39 else "slow"}
    for i in range(600 if tier == "quick" else 3000):
        yield {"seed": gen.seed_of(rng), "kind": "few"}


def make(rng, N, f, snr_db):
    A, dc, ph = gen.logu(rng, 1e-4, 1e4), 0.0, rng.uniform(-np.pi, np.pi)
    dc = rng.uniform(-2, 2) * A * gen.pick(rng, [0, 1, 1])
    sig = A / np.sqrt(2) * 10 ** (-snr_db / 20)
    x = A * np.cos(2 * np.pi * f * np.arange(N) + ph) + dc + sig * rng.standard_normal(N)
    return x, A, dc, ph, sig


def consistency(m, x, r):
    N = len(x)
    t = np.arange(N)
    model = r["amplitude"] * np.cos(2 * np.pi * r["frequency"] * t + r["phase"]) + r["dc_offset"]
    s = np.max(np.abs(x))
    m.close("consistency", r["fitted_signal"], model, atol=1e-9 * s, what="fitted waveform versus fitted parameters")
    m.close("consistency", r["residuals"], x - r["fitted_signal"], atol=1e-9 * s, what="residuals")
    m.close("consistency", r["rmse"], np.sqrt(np.mean((x - r["fitted_signal"]) ** 2)), rtol=1e-9, atol=1e-12 * s, what="rmse")


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    N = gen.pick(rng, [64, 100, 257, 512, 1000, 2048])
    f = rng.uniform(3.2 / N, 0.5 - 3.2 / N)
    if rng.random() < 0.25:
        f = gen.ri(rng, 4, N // 2 - 4) / N
    if c["kind"] == "slow":
        # a few periods in a very long record, or as close to half the rate
        N = gen.pick(rng, [30000, 65536, 100001])
        f = rng.uniform(2.2, 9.0) / N
        if rng.random() < 0.5:
            f = 0.5 - f
    snr = rng.uniform(25, 110)
    x, A, dc, ph, sig = make(rng, N, f, snr)
    e = sig / A
    if c["kind"] == "few":
        # one to three periods in the record, or as close to half the rate: the exact error bound of the four parameters
        N = gen.pick(rng, [64, 100, 257, 512, 1000])
        f = rng.uniform(0.75, 3.2) / N
        if f > 1.2 / N and rng.random() < 0.5:
            f = 0.5 - f
        snr = rng.uniform(45, 110)
        x, A, dc, ph, sig = make(rng, N, f, snr)
        u = 2 * np.pi * f * np.arange(N) + ph
        J = np.column_stack([np.cos(u), -np.sin(u), np.ones(N), -np.sin(u) * 2 * np.pi * np.arange(N)])
        J[:, 3] /= N
        s4 = np.sqrt(np.diag(np.linalg.inv(J.T @ J))) * sig / A
        r = m.call(fit_sine_4param, x, max_iterations=30, tolerance=1e-12)
        dphi = (r["phase"] - ph + np.pi) % (2 * np.pi) - np.pi
        got = [r["amplitude"] / A - 1, dphi, (r["dc_offset"] - dc) / A, (r["frequency"] - f) * N]
        m.close("few periods", got, np.zeros(4), atol=8 * s4 + 1e-8, what="amplitude, phase, offset and frequency of %.2f periods in %d samples" % (min(f, 0.5 - f) * N, N))
        consistency(m, x, r)
        m.nontrivial()
        return
    crb_f = np.sqrt(6.0) / np.pi * e / N ** 1.5
    if c["kind"] in ("free", "slow"):
        guess = gen.pick(rng, [None, None, f + rng.uniform(-0.2, 0.2) / N])
        r = m.call(fit_sine_4param, x, frequency_estimate=guess, max_iterations=30, tolerance=1e-12)
        m.close("frequency", r["frequency"], f, atol=8 * crb_f + 1e-12, what="frequency (N=%d, SNR %.0f dB)" % (N, snr))
        m.close("amplitude", r["amplitude"], A, atol=8 * sig * np.sqrt(2 / N) + 1e-9 * A, what="amplitude")
        m.close("offset", r["dc_offset"], dc, atol=8 * sig / np.sqrt(N) + 1e-9 * A, what="offset")
        dphi = (r["phase"] - ph + np.pi) % (2 * np.pi) - np.pi
        m.close("phase", dphi, 0.0, atol=16 * e * np.sqrt(2 / N) + 1e-8, what="phase")
        m.close("least squares", r["rmse"], sig, rtol=0.0, atol=sig * 6 / np.sqrt(2 * N) + sig * 4 / N + 1e-9 * A, what="residual rms against injected noise")
        consistency(m, x, r)
        m.close("estimate", m.call(fit_sine, x, frequency_estimate=guess, max_iterations=30, tolerance=1e-12)["frequency"], r["frequency"], rtol=1e-12, what="alias entry point")
        fs = gen.logu(rng, 1, 1e10)
        est = m.call(estimate_frequency, x, fs=fs)
        m.close("estimate", est / fs, f, atol=max(20 * crb_f, 0.02 / N), what="one-step frequency estimate in Hz")
        # a start value given to the estimate is used: the weaker of two tones is found when asked for
        f2 = f + gen.pick(rng, [-1, 1]) * rng.uniform(20, 40) / N
        if N >= 257 and c["kind"] == "free" and 4 / N < f2 < 0.5 - 4 / N:
            y = x + 0.3 * A * np.cos(2 * np.pi * f2 * np.arange(N) + 1.0)
            g2 = f2 + rng.uniform(-0.1, 0.1) / N
            est = m.call(estimate_frequency, y, frequency_estimate=g2, fs=fs)
            m.close("estimate", est / fs, f2, atol=0.3 / N + 20 * crb_f, what="frequency of the weaker tone from a start value")
            m.close("estimate", est / fs, m.call(fit_sine_4param, y, frequency_estimate=g2)["frequency"], rtol=1e-12, what="estimate against the fit with the same start value")
        m.nontrivial(abs(f * N - round(f * N)) > 0.01)
        m.sample(N=N, f=f, snr_db=snr, f_error=float(r["frequency"] - f), bound=float(8 * crb_f), iterations=int(r["n_iterations"]))
    elif c["kind"] == "fixed":
        g = f + rng.uniform(-2, 2) / N
        g = float(np.clip(g, 1.5 / N, 0.5 - 1.5 / N))
        r = m.call(fit_sine_4param, x, frequency_estimate=g, max_iterations=0)
        m.close("least squares", r["frequency"], g, atol=0, what="frequency is held when no iterations are allowed")
        t = np.arange(N)
        D = np.column_stack([np.cos(2 * np.pi * g * t), np.sin(2 * np.pi * g * t), np.ones(N)])
        m.close("least squares", D.T @ r["residuals"] / N / A, np.zeros(3), atol=1e-9, what="residual orthogonal to the model")
        m.check("convergence flag", bool(r["converged"]) and int(r["n_iterations"]) == 0, "fixed-frequency fit must report convergence with no iterations")
        m.close("consistency", r["initial_frequency"], g, atol=0, what="initial frequency")
        consistency(m, x, r)
        # residual of the three-parameter fit can never beat the four-parameter optimum by more than it should
        r4 = m.call(fit_sine_4param, x, frequency_estimate=f, max_iterations=30, tolerance=1e-13)
        m.check("least squares", r4["rmse"] <= r["rmse"] * (1 + 1e-9), lambda: "4-parameter rmse %g worse than fixed-frequency rmse %g" % (r4["rmse"], r["rmse"]))
        m.nontrivial()
    elif c["kind"] == "multi":
        K = gen.ri(rng, 2, 5)
        cols = [make(rng, N, rng.uniform(4 / N, 0.5 - 4 / N), rng.uniform(30, 80))[0] for _ in range(K)]
        X = np.column_stack(cols)
        r = m.call(fit_sine_4param, X, max_iterations=5)
        for j in range(K):
            one = m.call(fit_sine_4param, cols[j], max_iterations=5)
            for k in ("frequency", "amplitude", "phase", "dc_offset", "rmse"):
                m.close("channels", r[k][j], one[k], rtol=1e-10, atol=1e-300, what="%s of channel %d" % (k, j))
            m.close("channels", r["fitted_signal"][:, j], one["fitted_signal"], rtol=1e-9, atol=1e-12 * np.abs(cols[j]).max(), what="fitted channel %d" % j)
            m.close("channels", r["residuals"][:, j], one["residuals"], atol=1e-9 * np.abs(cols[j]).max(), what="residuals of channel %d" % j)
        m.expect_raise("rejects 3-D", ValueError, fit_sine_4param, np.zeros((2, 3, 64)))
        m.nontrivial()
    else:
        it = gen.ri(rng, 1, 12)
        tol = 10 ** rng.uniform(-13, -4)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fit_sine_4param(x, max_iterations=it, tolerance=tol)
        warned = any(issubclass(i.category, RuntimeWarning) and "converge" in str(i.message) for i in w)
        m.check("convergence flag", warned == (not r["converged"]), lambda: "warned=%s converged=%s" % (warned, r["converged"]))
        m.check("convergence flag", 1 <= r["n_iterations"] <= it, lambda: "%s iterations with a limit of %d" % (r["n_iterations"], it))
        m.check("convergence flag", (abs(r["last_delta_freq"]) < tol) == bool(r["converged"]), lambda: "last step %g, tolerance %g, converged=%s" % (r["last_delta_freq"], tol, r["converged"]))
        m.check("convergence flag", r["converged"] or r["n_iterations"] == it, "stopped early without converging")
        consistency(m, x, r)
        m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
