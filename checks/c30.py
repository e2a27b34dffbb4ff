"""C30 statistics of the error signal: density, autocorrelation, spectra, phase planes."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
from scipy.stats import norm
import vmon
import gen
from adctoolbox import aout
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

PROPERTY = "C30"
RULE = "sines with Gaussian, uniform, coloured, modulated or hysteretic error and glitches; non-trivial = error well above rounding"
REQUIRED_ORACLES = ["error record", "moments", "density", "density unity", "gaussian", "divergence", "full scale", "autocorrelation", "symmetry", "colour", "error spectrum", "envelope", "modulation",
                    "phase plane lag", "outliers", "trend", "hysteresis", "display unit", "legacy", "plot independence", "rejects", "input kept", "fit report"]
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1200}


def cases(rng, tier):
    kinds = ["pdf", "acf", "espec", "env", "plane", "eplane", "plot"]
    for i in range(420 if tier == "quick" else 2800):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def hilbert_env(e):
    N = len(e)
    E = np.fft.fft(e)
    H = np.zeros(N)
    H[0] = 1
    H[1:(N + 1) // 2] = 2
    if N % 2 == 0:
        H[N // 2] = 1
    return np.abs(np.fft.ifft(E * H))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [1024, 2048, 1999, 3000], 0.08)
    n = np.arange(N)
    b = gen.coprime_bin(rng, N, 20, N // 2 - 20)
    f = b / N
    A = gen.logu(rng, 1e-2, 1e3)
    dc = A * rng.uniform(-1, 1)
    s = A * 10 ** rng.uniform(-4, -1.7)
    ph = 2 * np.pi * f * n + rng.uniform(0, 6.28)
    clean = A * np.cos(ph) + dc
    e = s * rng.standard_normal(N)
    x = clean + e
    keep = x.copy()
    kw = dict(frequency=f) if rng.random() < 0.5 else {}
    B = np.column_stack([np.cos(2 * np.pi * f * n), np.sin(2 * np.pi * f * n), np.ones(N)])

    def err_ok(g, x):
        """Error record = input minus a sine; and no worse than a few percent above the best three-parameter fit."""
        er = np.asarray(g["error_signal"])
        sine = x - er
        q = np.linalg.lstsq(B, sine, rcond=None)[0]
        m.close("error record", sine, B @ q, atol=np.std(er) * 0.6 + 1e-9 * A, what="what was removed is a sine at the tone")

    if kind == "pdf":
        form = gen.pick(rng, ["gauss", "uniform"])
        if form == "uniform":
            x = clean + s * np.sqrt(12) * (rng.random(N) - 0.5)
            keep = x.copy()
        res = gen.ri(rng, 4, 17)
        k2 = dict(kw)
        if res != 12 or rng.random() < 0.5:
            k2["resolution"] = res
        else:
            res = 12
        fs = None
        if rng.random() < 0.5:
            fs = k2["full_scale"] = A * rng.uniform(1, 6)
        g = m.call(aout.analyze_error_pdf, x, create_plot=False, return_fit=True, **k2)
        lsb = (fs if fs is not None else np.ptp(x)) / 2.0 ** res
        er = np.asarray(g["err_lsb"]) * lsb
        err_ok({"error_signal": er}, x)
        m.close("full scale", g["sigma"] * lsb, s, rtol=6 / np.sqrt(2 * N) + 0.03, what="spread of the error in volts (%d bits)" % res)
        el = np.asarray(g["err_lsb"])
        m.close("moments", [g["mu"], g["sigma"]], [el.sum() / N, np.sqrt(((el - el.mean()) ** 2).sum() / (N - 1))], rtol=1e-9, atol=1e-9, what="mean and spread in LSB")
        X = np.asarray(g["x"])
        lim = max(0.5, np.abs(el).max())
        m.close("density", [X[0], X[-1]], [-lim, lim], rtol=1e-9, what="range of the density")
        h = 1.06 * g["sigma"] * N ** -0.2
        want = np.array([np.exp(-0.5 * ((v - el) / h) ** 2).sum() for v in X[::9]]) / (N * h * np.sqrt(2 * np.pi))
        m.close("density", np.asarray(g["pdf"])[::9], want, rtol=1e-7, atol=1e-12, what="kernel density")
        dx = X[1] - X[0]
        if h > 1.5 * dx:
            # kernels centred near the ends reach outside the plotted range, so the area may fall short but never exceed one
            m.close("density unity", np.sum(g["pdf"]) * dx, np.mean(norm.cdf((lim - el) / h) - norm.cdf((-lim - el) / h)), atol=0.01, what="area under the density")
        m.close("gaussian", g["gauss_pdf"], np.exp(-0.5 * ((X - g["mu"]) / g["sigma"]) ** 2) / (g["sigma"] * np.sqrt(2 * np.pi)), rtol=1e-7, atol=1e-300, what="matching normal density")
        p, q = np.asarray(g["pdf"]), np.asarray(g["gauss_pdf"])
        eps = np.finfo(float).eps
        m.close("divergence", g["kl_divergence"], np.sum((p + eps) * np.log((p + eps) / (q + eps))) * dx, rtol=1e-6, atol=1e-9, what="divergence from normal")
        if h > 1.5 * dx and N > 1500:
            m.check("divergence", g["kl_divergence"] < 0.04 if form == "gauss" else g["kl_divergence"] > 0.04, lambda: "divergence %.4f for %s error" % (g["kl_divergence"], form))
        m.close("fit report", [g["fit"]["frequency"], g["fit"]["amplitude"]], [f, A], rtol=0.05, what="reported fit")
        t = m.call(aout.plot_error_pdf, x, create_plot=False, **k2)
        m.close("legacy", [t[1], t[2], t[3]], [g["mu"], g["sigma"], g["kl_divergence"]], atol=0, what="legacy tuple")
    elif kind == "acf":
        rho = rng.uniform(-0.8, 0.8)
        w = rng.standard_normal(N + 50)
        for k in range(1, N + 50):
            w[k] = rho * w[k - 1] + np.sqrt(1 - rho ** 2) * w[k]
        x = clean + s * w[50:]
        keep = x.copy()
        L = gen.ri(rng, 1, 80)
        if rng.random() < 0.4:
            # a periodic error seen over many periods: the estimate at a long lag may exceed that at lag zero
            pb = gen.ri(rng, 3, 9)
            if abs(pb - b) > 8:
                x = clean + s * np.cos(2 * np.pi * pb * n / N + rng.uniform(0, 6.28)) * np.exp(-(n - N / 2) ** 2 / (0.1 * N * N)) ** gen.pick(rng, [-0.5, 0, 0.5]) + 0.01 * s * w[50:]
                keep = x.copy()
                rho = None
                L = gen.ri(rng, N // 3, N // 2)
        k2 = dict(kw)
        if L != 50:
            k2["max_lag"] = L
        g = m.call(aout.analyze_error_autocorr, x, create_plot=False, **k2)
        err_ok(g, x)
        m.equal("autocorrelation", np.asarray(g["lags"]), np.arange(-L, L + 1), "lags")
        er = np.asarray(g["error_signal"]) - np.mean(g["error_signal"])
        want = np.array([np.dot(er[:N - k], er[k:]) / (N - k) for k in range(L + 1)])
        full = np.concatenate([want[:0:-1], want])
        m.close("autocorrelation", g["acf"], full / want[0], atol=1e-9, what="autocorrelation of the error")
        m.close("symmetry", np.asarray(g["acf"])[::-1], g["acf"], atol=1e-10, what="lag reversal")
        m.close("autocorrelation", np.asarray(g["acf"])[L], 1.0, atol=1e-12, what="zero lag")
        if rho is not None:
            m.close("colour", np.asarray(g["acf"])[L + 1], rho, atol=7 / np.sqrt(N) + 0.05, what="first-order correlation of the injected error")
        u = m.call(aout.analyze_error_autocorr, x, normalize=False, create_plot=False, **k2)
        m.close("autocorrelation", np.asarray(u["acf"]), full, rtol=1e-9, atol=1e-9 * want[0], what="autocorrelation not normalised")
        t = m.call(aout.plot_error_autocorr, x, max_lag=L, create_plot=False, **kw)
        m.close("legacy", t[0], g["acf"], atol=0, what="legacy tuple")
    elif kind in ("espec", "env"):
        fs = gen.logu(rng, 1, 1e9)
        if kind == "espec":
            sb = gen.ri(rng, 15, N // 2 - 15)
            if abs(sb - b) < 12:
                return m.skip("spur next to the tone")
            a = s * rng.uniform(3, 10)
            x = clean + e + a * np.cos(2 * np.pi * sb * n / N + 1)
            keep = x.copy()
            g = m.call(aout.analyze_error_spectrum, x, fs=fs, create_plot=False, **kw)
            err_ok(g, x)
            ref = m.call(analyze_spectrum, np.asarray(g["error_signal"]), fs=fs, create_plot=False, max_harmonic=5)
            m.close("error spectrum", [g[k] for k in ("sndr_dbc", "sfdr_dbc", "snr_dbc", "enob", "nsd_dbfs_hz", "thd_dbc")], [ref[k] for k in ("sndr_dbc", "sfdr_dbc", "snr_dbc", "enob", "nsd_dbfs_hz", "thd_dbc")], atol=1e-9, what="figures of the error record's own spectrum")
            m.close("error spectrum", g["fundamental_frequency"] if "fundamental_frequency" in g else sb * fs / N, sb * fs / N, atol=1.5 * fs / N, what="strongest error component")
            m.close("error record", np.std(g["error_signal"]), np.sqrt(s ** 2 + a ** 2 / 2), rtol=0.1 + 6 / np.sqrt(N), what="rms of the error")
        else:
            mb = gen.ri(rng, 10, 30)
            cb = gen.ri(rng, N // 8, N // 3)
            if abs(cb - b) < 60:
                return m.skip("carrier next to the tone")
            x = clean + s * 5 * (1 + 0.8 * np.cos(2 * np.pi * mb * n / N)) * np.cos(2 * np.pi * cb * n / N) + 0.02 * e
            keep = x.copy()
            g = m.call(aout.analyze_error_envelope_spectrum, x, fs=fs, create_plot=False, **kw)
            er = np.asarray(g["error_signal"])
            m.close("envelope", g["envelope"], hilbert_env(er), atol=1e-8 * np.abs(er).max(), what="envelope of the error")
            q = np.asarray(g["envelope"]) - np.mean(g["envelope"])
            k = np.argmax(np.abs(np.fft.rfft(q)))
            m.equal("modulation", int(k), mb, "strongest modulation frequency of the error envelope")
            ref = m.call(analyze_spectrum, np.asarray(g["envelope"]), fs=fs, create_plot=False, max_harmonic=5)
            m.close("error spectrum", [g[k_] for k_ in ("sndr_dbc", "sfdr_dbc", "enob", "nsd_dbfs_hz", "noise_floor_dbfs")], [ref[k_] for k_ in ("sndr_dbc", "sfdr_dbc", "enob", "nsd_dbfs_hz", "noise_floor_dbfs")], atol=1e-9, what="figures of the envelope's own spectrum")
            t = m.call(aout.plot_envelope_spectrum, x, fs=fs, create_plot=False, **kw)
            m.close("legacy", [t["sndr_db"], t["sfdr_db"]], [g["sndr_dbc"], g["sfdr_dbc"]], atol=0, what="legacy keys")
    elif kind == "plane":
        k = gen.ri(rng, 1, 40)
        # amplitude glitches, well off the ellipse of the record
        x = clean + e * 0.1
        G = []
        if rng.random() < 0.7:
            G = sorted(rng.choice(np.arange(60, N - 60), size=gen.ri(rng, 1, 5), replace=False).tolist())
            for i in G:
                x[i] += 6 * A * rng.choice([-1, 1])
        if rng.random() < 0.4:
            # the same record in a much larger unit
            u = gen.logu(rng, 1e-5, 1e-2) / A
            x, clean, e, A = x * u, clean * u, e * u, A * u
        keep = x.copy()
        g = m.call(aout.analyze_phase_plane, x, lag=k, create_plot=False)
        m.equal("phase plane lag", int(g["lag"]), k, "lag")
        got = set(int(v) for v in g["outliers"])
        xs, ys = x[:-k] - x[:-k].mean(), x[k:] - x[k:].mean()
        r = np.hypot(xs, ys)
        d = np.abs(r - np.median(r))
        lim = 4.0 * 1.4826 * np.median(d)
        close = np.abs(d - lim) < 1e-9 * A
        want = set((np.nonzero(d > lim)[0] + k).tolist())
        edge = set((np.nonzero(close)[0] + k).tolist())
        m.check("outliers", (got ^ want) <= edge, lambda: "outliers %s, expected %s" % (sorted(got)[:6], sorted(want)[:6]))
        if lim < 3.5 * A:
            m.check("outliers", all(i in got or i + k in got for i in G), "a large glitch is not among the outliers")
        th = rng.uniform(1, 8)
        g2 = m.call(aout.analyze_phase_plane, x, lag=k, threshold=th, create_plot=False)
        want = (np.nonzero(d > th / 4.0 * lim)[0] + k)
        if not np.any(np.abs(d - th / 4.0 * lim) < 1e-9 * A):
            m.equal("outliers", np.asarray(g2["outliers"]).tolist(), want.tolist(), "outliers at threshold %.2f" % th)
        g3 = m.call(aout.analyze_phase_plane, x, lag=k, detect_outliers=False, create_plot=False)
        m.equal("outliers", len(g3["outliers"]), 0, "outliers when not asked for")
        ga = m.call(aout.analyze_phase_plane, clean + 0.1 * e, create_plot=False)
        if f > 3.0 / N:
            ka = int(ga["lag"])
            q = np.abs(np.sin(2 * np.pi * f * ka))
            lim_k = min(N // 2, int(0.6 / f) + 20)
            best = max(np.abs(np.sin(2 * np.pi * f * kk)) - kk * 1e-4 for kk in range(1, lim_k))
            m.check("phase plane lag", 1 <= ka < lim_k and q - ka * 1e-4 >= best - 1e-9, lambda: "automatic lag %d gives quadrature %.3f, %.3f possible" % (ka, q, best))
        m.expect_raise("rejects", ValueError, aout.analyze_phase_plane, x, lag=N + gen.ri(rng, 0, 5), create_plot=False)
    elif kind == "eplane":
        mid = dc
        hyst = A * 10 ** rng.uniform(-3, -1.5) if rng.random() < 0.5 else 0.0
        k3 = rng.uniform(-0.02, 0.02)
        u = np.cos(ph)
        low = N / b > 12  # enough samples per period for the direction to be that of the tone
        f_ok = low and hyst > 0
        # distortion of third order, plus a different error on rising and falling slopes
        x = clean + A * k3 * u ** 3 + (hyst * np.sign(-np.sin(ph)) * (1 - u ** 2) if f_ok else 0) + 0.05 * s * rng.standard_normal(N)
        keep = x.copy()
        P = gen.pick(rng, [3, 3, 1, 5])
        g = m.call(aout.analyze_error_phase_plane, x, create_plot=False, **({} if P == 3 else dict(fit_polynomial_order=P)))
        m.close("error record", g["residual"], x - g["fitted_sine"], atol=1e-10 * A, what="residual = record minus sine")
        # a tone between bins: the sine removed is the best one, not a first guess
        fo = (b + rng.uniform(-0.45, 0.45)) / N
        y = A * np.cos(2 * np.pi * fo * n + 1.0) + dc + 1e-6 * A * rng.standard_normal(N)
        go = m.call(aout.analyze_error_phase_plane, y, create_plot=False)
        t_ = n - N / 2
        Bo = np.column_stack([np.cos(2 * np.pi * fo * n), np.sin(2 * np.pi * fo * n), np.ones(N), t_ * np.cos(2 * np.pi * fo * n), t_ * np.sin(2 * np.pi * fo * n)])
        bo = y - Bo @ np.linalg.lstsq(Bo, y, rcond=None)[0]
        m.check("error record", np.std(go["residual"]) < 1.02 * np.std(bo), lambda: "residual of an off-bin tone is %.4g, %.4g possible" % (np.std(go["residual"]), np.std(bo)))
        v = (x > np.percentile(x, 2)) & (x < np.percentile(x, 98))
        z = (x - mid) / A
        want = np.polyval(np.polyfit(z[v], np.asarray(g["residual"])[v], P), z)
        m.close("trend", np.polyval(g["trend_coeffs"], x), want, atol=1e-6 * A, what="trend of the error against the value (order %d)" % P)
        gr = np.gradient(x)
        rise, fall = (gr > 0), (gr < 0)
        if rise.sum() > 110 and fall.sum() > 110 and (rise & v).sum() > 60 and (fall & v).sum() > 60:
            tr = np.polyval(np.polyfit(z[rise & v], np.asarray(g["residual"])[rise & v], P), z)
            tf = np.polyval(np.polyfit(z[fall & v], np.asarray(g["residual"])[fall & v], P), z)
            m.close("hysteresis", g["hysteresis_gap"], np.mean(np.abs(tr - tf)), rtol=1e-4, atol=1e-6 * A, what="mean gap between rising and falling trends")
        q = m.call(aout.analyze_error_phase_plane, x, create_plot=False, detect_hysteresis=False)
        m.close("hysteresis", q["hysteresis_gap"], 0.0, atol=0, what="gap when not asked for")
        m.expect_raise("rejects", ValueError, aout.analyze_error_phase_plane, x, create_plot=False, unit_mode="lsb")
        for um in ("voltage", "code", "normalized_fs", "auto"):
            q = m.call(aout.analyze_error_phase_plane, x, create_plot=False, unit_mode=um)
            m.close("trend", q["residual"], g["residual"], atol=0, what="residual does not depend on the display unit")
    else:
        for fn, key in ((aout.analyze_error_pdf, "pdf"), (aout.analyze_error_autocorr, "acf"), (aout.analyze_error_spectrum, "sndr_dbc"), (aout.analyze_error_envelope_spectrum, "sndr_dbc"),
                        (aout.analyze_phase_plane, "outliers"), (aout.analyze_error_phase_plane, "residual")):
            a = m.call(fn, x, create_plot=False)
            b_ = m.call(fn, x, create_plot=True)
            plt.close("all")
            fig, ax = plt.subplots()
            d_ = m.call(fn, x, create_plot=True, ax=ax, title="t")
            plt.close("all")
            m.check("plot independence", set(a) == set(b_) == set(d_), lambda: "%s reports other items when it draws" % fn.__name__)
            for k_ in a:
                if isinstance(a[k_], (int, float, np.number, np.ndarray)) and k_ in b_ and k_ in d_:
                    m.close("plot independence", b_[k_], a[k_], atol=0, what="%s of %s with a plot" % (k_, fn.__name__))
                    m.close("plot independence", d_[k_], a[k_], atol=0, what="%s of %s on given axes" % (k_, fn.__name__))
        # the display unit follows the size of the record, whichever side of zero it lies on
        for big in (True, False):
            y = (clean - dc) / A * (rng.uniform(20, 500) if big else rng.uniform(0.01, 5)) + 0.001 * rng.standard_normal(N)
            y = y + (gen.pick(rng, [-1, 1]) * rng.uniform(600, 3000) if big else 0)
            fig, ax = plt.subplots()
            m.call(aout.analyze_error_phase_plane, y, create_plot=True, ax=ax)
            m.check("display unit", ("LSB" in ax.get_ylabel()) == big and ("uV" in ax.get_ylabel()) != big, lambda: "residual of a record between %.3g and %.3g is labelled %r" % (y.min(), y.max(), ax.get_ylabel()))
            plt.close("all")
    m.equal("input kept", x, keep, "caller's record")
    m.nontrivial()
    m.sample(kind=kind, N=N, bin=b)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
