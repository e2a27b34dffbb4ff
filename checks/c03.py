"""C03 SNR, noise floor and noise spectral density agree with the physical noise of the record."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

PROPERTY = "C03"
RULE = ("tone plus Gaussian noise of known variance; random window, rate, OSR, run count, estimation method, full scale; "
        "non-trivial = noise estimated and compared with the injected variance")
REQUIRED_ORACLES = ["noise floor", "nsd", "snr", "identity", "assumed power", "method rejected", "no noise bins"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 800}


def cases(rng, tier):
    for i in range(3600 if tier == "quick" else 18000):
        yield {"seed": gen.seed_of(rng), "nf": i % 5, "kind": "assumed" if i % 6 == 5 else ("reject" if i % 40 == 3 else "noise")}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    nf = c["nf"]
    N = gen.length(rng, [2048, 4096, 4095, 5000, 8192])
    M = gen.pick(rng, [1, 1, 1, 2, 4, 9])
    osr = gen.pick(rng, [1, 1, 2, 4, 2.5])
    win = gen.pick(rng, gen.WINDOWS)
    fs = gen.logu(rng, 1e-2, 1e11)
    A = gen.logu(rng, 1e-3, 1e3)
    peak = A * rng.uniform(1.0, 3.0)
    # on-bin tones leak nothing outside the lobe of a cosine-sum window, so very quiet noise is measurable too
    sigma = A * 10 ** rng.uniform(-6.5 if win in gen.EXACT and rng.random() < 0.4 else -3, -1.7)
    fb = gen.ri(rng, 30, int(N / (2 * osr)) - 30)
    n = np.arange(N)
    x = np.array([A * np.cos(2 * np.pi * fb * n / N + rng.uniform(0, 6.28)) + sigma * rng.standard_normal(N) for _ in range(M)])
    if M == 1:
        x = x[0]
    if c["kind"] == "reject":
        for bad in (5, -1, 7, 100):
            m.expect_raise("method rejected", ValueError, compute_spectrum, x, nf_method=bad)
        # a record whose every bin is DC, tone or harmonic has no noise estimate under wide exclusion
        y = np.cos(2 * np.pi * 3 * np.arange(12) / 12 + 0.1) + 1e-3 * rng.standard_normal(12)
        r = m.call(compute_spectrum, y, nf_method=4, side_bin=6, win_type="rectangular")["metrics"]
        m.check("no noise bins", np.isnan(r["snr_dbc"]) and np.isnan(r["noise_floor_dbfs"]) and np.isnan(r["nsd_dbfs_hz"]),
                lambda: "no noise bins remain but SNR=%s floor=%s NSD=%s" % (r["snr_dbc"], r["noise_floor_dbfs"], r["nsd_dbfs_hz"]))
        m.nontrivial()
        return
    sb = gen.LOBE[win]
    if c["kind"] == "assumed":
        a_db = rng.uniform(-20, 6)
        fn = gen.pick(rng, ["compute", "analyze"])
        kw = dict(fs=fs, osr=osr, win_type=win, max_scale_range=peak, nf_method=nf, side_bin=sb)
        r0 = m.call(compute_spectrum, x, **kw)["metrics"]
        if fn == "compute":
            r = m.call(compute_spectrum, x, assumed_sig_pwr_dbfs=a_db, **kw)["metrics"]
        else:
            r = m.call(analyze_spectrum, x, assumed_sig_pwr_dbfs=a_db, create_plot=False, show_label=False, **kw)
        d = a_db - r0["sig_pwr_dbfs"]
        for k, sgn in (("sig_pwr_dbfs", 1), ("sndr_dbc", 1), ("snr_dbc", 1), ("sfdr_dbc", 1), ("thd_dbc", -1), ("noise_floor_dbfs", 0), ("nsd_dbfs_hz", 0), ("harmonics_dbc", -1), ("enob", 1 / 6.02)):
            m.close("assumed power", r[k], np.asarray(r0[k]) + sgn * d, atol=1e-8, what="%s with the signal power overridden by %+.3f dB" % (k, d))
        rn = m.call(compute_spectrum, x, assumed_sig_pwr_dbfs=float("nan"), **kw)["metrics"]
        m.close("assumed power", rn["snr_dbc"], r0["snr_dbc"], atol=1e-12, what="NaN means no override")
        m.nontrivial()
        return
    r = m.call(compute_spectrum, x, fs=fs, osr=osr, win_type=win, max_scale_range=peak, nf_method=nf, side_bin=sb,
               max_harmonic=gen.ri(rng, 2, 8))["metrics"]
    nin = N / (2 * osr)
    true_nsd = gen.db(2 * sigma ** 2 / peak ** 2 / (fs / 2))
    true_floor = gen.db(2 * sigma ** 2 / peak ** 2 / osr)
    stat = 4.343 * 6 * np.sqrt(2.0 / (nin * M))
    lost = -gen.db(1 - (6 * sb + 3 + 7 * (2 * sb + 1)) / nin)
    if nf in (3, 4):
        lo, hi = stat + lost + 0.05, stat + 0.05
    else:
        lo, hi = stat + 1.3, stat + 1.2
    if win not in gen.EXACT:
        # side lobes of the tone outside its main lobe (equal-ripple windows: they add up with the record length)
        W = np.abs(np.fft.fft(gen.window(win, N))) ** 2
        leak = W[sb + 1:N - sb].sum() / W.sum() * A ** 2 / 2
        hi += gen.db(1 + 4 * leak / sigma ** 2)
    mid, half = (hi - lo) / 2, (hi + lo) / 2
    m.close("noise floor", r["noise_floor_dbfs"], true_floor + mid, atol=half, what="noise floor dBFS, method %d (%s, M=%d, osr=%g)" % (nf, win, M, osr))
    m.close("nsd", r["nsd_dbfs_hz"], true_nsd + mid, atol=half, what="NSD dBFS/Hz, method %d (%s, fs=%.3g)" % (nf, win, fs))
    m.close("snr", r["snr_dbc"], gen.db(A ** 2 / 2 / (sigma ** 2 / osr)) - mid, atol=half + 0.1, what="SNR, method %d" % nf)
    m.close("identity", r["noise_floor_dbfs"], r["sig_pwr_dbfs"] - r["snr_dbc"], atol=1e-9, what="noise floor = signal - SNR")
    m.close("identity", r["nsd_dbfs_hz"], r["noise_floor_dbfs"] - 10 * np.log10(fs / (2 * osr)), atol=1e-9, what="NSD = floor per Hz of signal bandwidth")
    m.nontrivial()
    m.sample(N=N, runs=M, osr=osr, window=win, method=nf, sigma_dbfs=float(true_floor), floor=float(r["noise_floor_dbfs"]), nsd=float(r["nsd_dbfs_hz"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
