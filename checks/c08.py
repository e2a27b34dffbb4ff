"""C08 every spectrum entry point reports the same numbers, with or without plotting."""
import contextlib
import io
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox import analyze_spectrum, analyze_spectrum_virtuoso, analyze_spectrum_polar, quick_sndr
from adctoolbox.spectrum import compute_spectrum
import adctoolbox.aout as aout

PROPERTY = "C08"
RULE = "random records and options through each entry point; non-trivial = finite SNDR compared between two different entry points"
REQUIRED_ORACLES = ["quick sndr", "analyze", "virtuoso", "polar", "plot independence", "legacy keys", "legacy wrapper", "quick identity"]
MIN_NONTRIVIAL = {"quick": 50, "thorough": 300}
KEYS = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz", "thd_dbc", "harmonics_dbc"]
LEGACY = {"sndr_db": "sndr_dbc", "sfdr_db": "sfdr_dbc", "snr_db": "snr_dbc", "thd_db": "thd_dbc", "noise_floor_db": "noise_floor_dbfs"}
DEFAULT_LOBE = {"rectangular": 0, "boxcar": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4, "kaiser": 8, "chebwin": 4}


def cases(rng, tier):
    for i in range(270 if tier == "quick" else 1350):
        yield {"seed": gen.seed_of(rng), "plot": i % 4 == 0}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    N = gen.length(rng, [256, 511, 1000, 1024, 2048], 0.05)
    M = gen.pick(rng, [1, 1, 3])
    win = gen.pick(rng, gen.WINDOWS)
    osr = gen.pick(rng, [1, 1, 2, 4])
    n = np.arange(N)
    fb = gen.ri(rng, 20, int(N / (2 * osr)) - 10) + gen.pick(rng, [0, 0, rng.uniform(-0.4, 0.4)])
    x = []
    for _ in range(M):
        s = np.sin(2 * np.pi * fb * n / N + rng.uniform(0, 6.28))
        x.append(s + 1e-3 * s ** 2 + 2e-3 * s ** 3 + 10 ** rng.uniform(-4, -2) * rng.standard_normal(N))
    x = np.array(x) if M > 1 else x[0]
    fs = gen.logu(rng, 1, 1e9)
    kw = dict(fs=fs, osr=osr, win_type=win, max_scale_range=gen.pick(rng, [None, 1.5, (-2, 2), [-1.1, 1.4]]), side_bin=gen.pick(rng, [None, 0, 1, 4]),
              max_harmonic=gen.ri(rng, 2, 9), nf_method=gen.ri(rng, 0, 5), coherent_averaging=bool(rng.random() < 0.2))
    base = m.call(compute_spectrum, x, **kw)["metrics"]

    def same(tag, got, want=base, tol=1e-9, keys=KEYS):
        for k in keys:
            if k not in got:
                m.fail(tag, "metric %s missing" % k)
            else:
                m.close(tag, got[k], want[k], atol=tol, what="%s through %s" % (k, tag))

    with contextlib.redirect_stdout(io.StringIO()):
        a = m.call(analyze_spectrum, x, create_plot=False, show_label=False, **kw)
        same("analyze", a)
        for old, new in LEGACY.items():
            m.close("legacy keys", a.get(old, np.nan), base[new], atol=1e-12, what="legacy key %s" % old)
        v = m.call(analyze_spectrum_virtuoso, x, create_plot=False, show_label=False, **kw)
        same("virtuoso", v)
        pkw = dict(max_code=1.5, harmonic=gen.ri(rng, 3, 8), osr=osr, fs=fs, win_type="boxcar")
        p = m.call(analyze_spectrum_polar, x, create_plot=False, **pkw)
        pr = m.call(compute_spectrum, x, max_scale_range=1.5, max_harmonic=pkw["harmonic"], osr=osr, fs=fs, win_type="boxcar", coherent_averaging=True)["metrics"]
        same("polar", p, pr)
        # quick SNDR: one-sided full band, window's own lobe width unless given
        sb = gen.pick(rng, [None, 0, 2, 5])
        q = m.call(quick_sndr, x, fs=fs, win_type=win, side_bin=sb, max_scale_range=kw["max_scale_range"])
        qr = m.call(compute_spectrum, x, fs=fs, win_type=win, side_bin=DEFAULT_LOBE[win] if sb is None else sb, max_scale_range=kw["max_scale_range"])["metrics"]
        m.close("quick sndr", q["sndr_dbc"], qr["sndr_dbc"], atol=1e-8, what="quick SNDR (%s, side_bin=%s)" % (win, sb))
        m.close("quick sndr", q["enob"], qr["enob"], atol=1e-8, what="quick ENOB")
        if M == 1:
            # tone a few bins from either end of the spectrum
            eb = gen.pick(rng, [gen.ri(rng, 1, 8), N // 2 - gen.ri(rng, 0, 8)])
            y = np.cos(2 * np.pi * ((eb * n) % N) / N + (0.0 if 2 * eb == N else rng.uniform(0, 6.28))) + 10 ** rng.uniform(-3, -1.5) * rng.standard_normal(N)
            for esb in (None, gen.ri(rng, 0, 6)):
                eq = m.call(quick_sndr, y, fs=fs, win_type=win, side_bin=esb)
                er = m.call(compute_spectrum, y, fs=fs, win_type=win, side_bin=DEFAULT_LOBE[win] if esb is None else esb)["metrics"]
                m.close("quick sndr", eq["sndr_dbc"], er["sndr_dbc"], atol=1e-8, what="quick SNDR of a tone in bin %d of %d (%s, side_bin=%s)" % (eb, N // 2, win, esb))
        m.close("quick identity", q["enob"], (q["sndr_dbc"] - 1.76) / 6.02, atol=1e-12, what="ENOB identity")
        # legacy analog-output wrapper: defaults forwarded, harmonic count renamed
        H = gen.ri(rng, 2, 9)
        lw = m.call(aout.analyze_spectrum, x, fs=fs, win_type=win, n_thd=H, create_plot=False, show_label=False)
        lr = m.call(compute_spectrum, x, fs=fs, win_type=win, max_harmonic=H)["metrics"]
        same("legacy wrapper", lw, lr)
        if c["plot"]:
            before = set(plt.get_fignums())
            try:
                fig, ax = plt.subplots()
                g = m.call(analyze_spectrum, x, ax=ax, create_plot=True, **kw)
                same("plot independence", g)
                g = m.call(analyze_spectrum_virtuoso, x, create_plot=True, ax=plt.figure().add_subplot(), **kw)
                same("plot independence", g)
                g = m.call(analyze_spectrum_polar, x, create_plot=True, ax=plt.figure().add_subplot(projection="polar"), **pkw)
                same("plot independence", g, pr)
                g = m.call(analyze_spectrum, x, create_plot=True, show_title=False, show_label=False, plot_harmonics_up_to=2, **kw)
                same("plot independence", g)
            finally:
                plt.close("all")
    m.nontrivial(np.isfinite(base["sndr_dbc"]))
    m.sample(N=N, runs=M, window=win, osr=osr, sndr=float(base["sndr_dbc"]), quick=float(q["sndr_dbc"]), plotted=c["plot"])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
