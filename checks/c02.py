"""C02 spectrum metrics are invariant to gain, offset, polarity, circular reversal and sampling-rate relabelling."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.spectrum import compute_spectrum

PROPERTY = "C02"
RULE = ("random ADC-like record (noise, distortion, quantisation, coherent or not, one or more runs) and options, analysed before and after "
        "one change of units; non-trivial = the change altered the samples or the rate and the baseline metrics were finite")
REQUIRED_ORACLES = ["gain auto-scale", "offset", "polarity", "reversal", "sampling rate", "gain fixed scale", "gain with full scale", "weak record", "shift"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}
KEYS = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz", "thd_dbc", "harmonics_dbc"]
TOL = 2e-5


def cases(rng, tier):
    for i in range(3000 if tier == "quick" else 15000):
        yield {"seed": gen.seed_of(rng), "what": ["gain", "offset", "polarity", "reversal", "fs", "fixed", "shift", "both", "weak"][i % 9]}


def record(rng, N, M, osr):
    n = np.arange(N)
    coh = rng.random() < 0.6
    rows = []
    fb = gen.ri(rng, N // 20 + 12, int(N / 2 / osr) - N // 20 - 6) + (0 if coh else rng.uniform(-0.4, 0.4))
    k2, k3 = 10 ** rng.uniform(-4, -2, 2)
    sigma = 10 ** rng.uniform(-4, -2.3)
    for _ in range(M):
        s = np.cos(2 * np.pi * fb * n / N + rng.uniform(0, 6.28))
        rows.append(s + k2 * s ** 2 + k3 * s ** 3 + sigma * rng.standard_normal(N))
    x = np.array(rows) if M > 1 else rows[0]
    return x


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    what = c["what"]
    N = gen.length(rng, [256, 509, 512, 777, 1000, 1024, 2048])
    M = gen.pick(rng, [1, 1, 1, 2, 5])
    win = gen.pick(rng, gen.WINDOWS)
    if what == "shift":
        win = "rectangular"
    osr = gen.pick(rng, [1, 1, 1, 2])
    x = record(rng, N, M, osr)
    opts = dict(win_type=win, osr=osr, max_harmonic=gen.ri(rng, 2, 9), nf_method=gen.ri(rng, 0, 5),
                side_bin=gen.pick(rng, [None, gen.LOBE[win], gen.LOBE[win] + 1]),
                coherent_averaging=bool(rng.random() < 0.25 and what in ("gain", "offset", "fs", "fixed", "both")) or what == "weak")
    fs = gen.logu(rng, 1, 1e9)
    auto = what in ("gain",) or (what in ("offset", "polarity", "reversal", "shift", "fs") and rng.random() < 0.5)
    full = None if auto else 1.3
    base = m.call(compute_spectrum, x, fs=fs, max_scale_range=full, **opts)["metrics"]
    want = {k: np.array(base[k], float) for k in KEYS}
    if what == "gain":
        g = gen.logu(rng, 1e-12, 1e12)
        got, tag = m.call(compute_spectrum, x * g, fs=fs, **opts), "gain auto-scale"
    elif what == "fixed":
        g = gen.logu(rng, 0.1, 30)
        got, tag = m.call(compute_spectrum, x * g, fs=fs, max_scale_range=full, **opts), "gain fixed scale"
        for k in ("sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz"):
            want[k] = want[k] + 20 * np.log10(g)
    elif what == "both":
        # samples and full scale re-expressed in another unit together
        g = gen.logu(rng, 1e-9, 1e9)
        fsr = gen.pick(rng, [full * g, (-full * g, full * g), [-full * g, full * g]])
        got, tag = m.call(compute_spectrum, x * g, fs=fs, max_scale_range=fsr, **opts), "gain with full scale"
    elif what == "weak":
        # a record far below its full scale, averaged coherently: judged by the tone level, which still stands clear
        g = gen.logu(rng, 3e-7, 1e-3)
        got, tag = m.call(compute_spectrum, x * g, fs=fs, max_scale_range=full, **opts), "weak record"
        m.close(tag, got["metrics"]["sig_pwr_dbfs"], want["sig_pwr_dbfs"] + 20 * np.log10(g), atol=0.02, what="tone level of a record %.0f dB below full scale" % (-20 * np.log10(g)))
        m.nontrivial()
        return
    elif what == "offset":
        off = rng.uniform(-20, 20) if M == 1 or rng.random() < 0.5 or auto else rng.uniform(-20, 20, (M, 1))
        got, tag = m.call(compute_spectrum, x + off, fs=fs, max_scale_range=full, **opts), "offset"
    elif what == "polarity":
        got, tag = m.call(compute_spectrum, -x, fs=fs, max_scale_range=(-full, full) if full else None, **opts), "polarity"
    elif what == "reversal":
        y = np.roll(np.flip(x, axis=-1), 1, axis=-1)
        got, tag = m.call(compute_spectrum, y, fs=fs, max_scale_range=full, **opts), "reversal"
    elif what == "shift":
        y = np.roll(x, gen.ri(rng, 1, N), axis=-1)
        got, tag = m.call(compute_spectrum, y, fs=fs, max_scale_range=full, **opts), "shift"
    else:
        g = gen.logu(rng, 1e-3, 1e6)
        got, tag = m.call(compute_spectrum, x, fs=fs * g, max_scale_range=full, **opts), "sampling rate"
        want["nsd_dbfs_hz"] = want["nsd_dbfs_hz"] - 10 * np.log10(g)
        b0 = m.call(compute_spectrum, x, fs=fs, max_scale_range=full, **opts)["plot_data"]
        m.close("frequency axis", got["plot_data"]["freq"], b0["freq"] * g, rtol=1e-12, what="frequency axis after relabelling the rate")
        m.close("frequency axis", got["plot_data"]["freq"], np.fft.rfftfreq(N, 1 / (fs * g)), rtol=1e-12, what="frequency axis")
    if what == "fixed":
        # harmonics that collide with the tone or DC report the absolute floor, which does not scale
        for k in ("harmonics_dbc", "thd_dbc"):
            floor = (want[k] + base["sig_pwr_dbfs"] < -149.9) | (np.asarray(got["metrics"][k]) + got["metrics"]["sig_pwr_dbfs"] < -149.9)
            want[k] = np.where(floor, np.asarray(got["metrics"][k], float), want[k])
    for k in KEYS:
        m.close(tag, got["metrics"][k], want[k], atol=TOL, what="%s after %s change (%s, N=%d, M=%d)" % (k, tag, win, N, M))
    m.nontrivial(np.isfinite(want["sndr_dbc"]))
    m.sample(change=tag, N=N, runs=M, window=win, sndr=float(base["sndr_dbc"]), sig=float(base["sig_pwr_dbfs"]), after=float(got["metrics"]["sndr_dbc"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
