"""C04 only content inside the signal band affects band-limited spectrum metrics."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import refspec
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum, analyze_spectrum_polar

PROPERTY = "C04"
RULE = ("random record, OSR (integer or fractional) and high-pass cutoff; a strong tone is added outside the band, just outside and just inside its edges; "
        "non-trivial = the added tone was above the noise by more than 20 dB")
REQUIRED_ORACLES = ["outside ignored", "inside counted", "cutoff ignored", "cutoff kept", "osr rejected", "fundamental in band"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}
KEYS = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz"]


def cases(rng, tier):
    for i in range(3500 if tier == "quick" else 17500):
        yield {"seed": gen.seed_of(rng), "kind": ["out", "edge", "cut", "out", "edge", "big"][i % 6] if i % 60 != 59 else "reject"}


def tone(b, N, a, ph):
    return a * np.cos(2 * np.pi * ((b * np.arange(N)) % N) / N + ph)


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [512, 1000, 1024, 1023, 2048, 3000, 4096])
    if kind == "reject":
        x = tone(21, N, 1, 0) + 1e-3 * rng.standard_normal(N)
        for bad in (0, -1, -2.5):
            m.expect_raise("osr rejected", ValueError, compute_spectrum, x, osr=bad)
        m.nontrivial()
        return
    osr = gen.pick(rng, [1.5, 2, 3, 4, 5, 8, 10, 16, 2.37, 7.7, N / (2 * gen.ri(rng, 20, 60))])
    nin = refspec.inband_bins(N, osr)
    win = gen.pick(rng, ["rectangular", "hann", "blackman"]) if nin > 60 else "rectangular"
    lobe = gen.LOBE[win]
    fs = float(N) * 2.0 ** gen.ri(rng, -3, 20)
    if nin < 12 + 6 * lobe:
        m.skip("band too narrow")
        return
    H = gen.ri(rng, 2, 6)
    top = nin - 1
    kw = dict(fs=fs, osr=osr, win_type=win, side_bin=lobe, max_scale_range=2.0, max_harmonic=H, nf_method=gen.ri(rng, 0, 5))

    def run(x, **extra):
        return m.call(compute_spectrum, x, **{**kw, **extra})["metrics"]

    for _ in range(200):
        fb = gen.ri(rng, 2 + 2 * lobe, top - 2 * lobe)
        hb = [gen.fold(h * fb, N) for h in range(2, H + 1)]
        if all(abs(top + 1 + lobe - b) > 2 * lobe and abs(top - lobe - b) > 2 * lobe for b in hb) and abs(top - lobe - fb) > 2 * lobe:
            break
    else:
        m.skip("no placement")
        return
    A = 1.0
    noise = gen.flat_noise(rng, N, 10 ** rng.uniform(-4, -2.5))
    x = tone(fb, N, A, rng.uniform(0, 6.28)) + noise
    if kind in ("out", "big"):
        base = run(x)
        free = [b for b in range(top + 1 + lobe, N // 2 - 2 * lobe) if all(abs(b - h) > 2 * lobe for h in hb)]
        if not free:
            m.skip("no out-of-band bin")
            return
        amp = 10 ** rng.uniform(-1, 0) if kind == "out" else 10 ** rng.uniform(0.5, 1.5)
        y = x.copy()
        chosen = [gen.pick(rng, free)] + ([free[0]] if rng.random() < 0.6 else []) + [gen.pick(rng, free)]
        for b in chosen:
            y = y + tone(b, N, amp, rng.uniform(0, 6.28))
        got = run(y)
        for k in KEYS:
            m.close("outside ignored", got[k], base[k], atol=1e-6, what="%s after adding tones at bins %s beyond the band edge %d (osr=%g, N=%d)" % (k, sorted(set(chosen)), top, osr, N))
        if rng.random() < 0.3:
            full = m.call(analyze_spectrum, y, create_plot=False, show_label=False, fs=fs, osr=osr, win_type=win, side_bin=lobe, max_scale_range=2.0, max_harmonic=H, nf_method=kw["nf_method"])
            m.close("outside ignored", full["sndr_dbc"], base["sndr_dbc"], atol=1e-6, what="SNDR through the plotting entry point")
        fund = m.call(compute_spectrum, y, **kw)["plot_data"]["fundamental_bin"]
        m.check("fundamental in band", int(fund) == fb, lambda: "fundamental chosen in bin %s, in-band tone is in bin %d, band ends at %d" % (fund, fb, top))
        m.nontrivial()
        m.sample(kind=kind, N=N, osr=osr, band_edge_bin=top, outside_bins=str(sorted(set(chosen))), amp=amp, sndr=float(got["sndr_dbc"]))
    elif kind == "edge":
        # a tone in the last in-band bin counts (rectangular window: exactly; others: its in-band half)
        a = 10 ** rng.uniform(-2, -1)
        b = top - lobe
        got = run(x + tone(b, N, a, rng.uniform(0, 6.28) if 2 * b != N else 0.0))
        pn = gen.psd(noise, win)[:nin].copy()
        pw = a * a * (2.0 if 2 * b == N else 1.0)
        # noise in the bins of a tone can turn its amplitude by at most the ratio of the two (triangle inequality)
        turn = -20 * np.log10(1 - min(0.9, np.sqrt(pn[b - lobe:b + lobe + 1].sum() / pw))) - 20 * np.log10(1 - np.sqrt(pn[fb - lobe:fb + lobe + 1].sum()))
        pn[:lobe + 1] = 0
        pn[fb - lobe:fb + lobe + 1] = 0
        pn[b - lobe:b + lobe + 1] = 0
        m.close("inside counted", got["sndr_dbc"], gen.db(1.0 / (pn.sum() + pw)), atol=0.1 + turn, what="SNDR with a tone at the last in-band bins (%d of %d, osr=%g)" % (b, top, osr))
        m.close("inside counted", got["sfdr_dbc"], gen.db(1.0 / pw), atol=0.1 + turn, what="SFDR with a tone at the last in-band bins")
        # the strongest tone itself sits in the last in-band bin, with a weaker one well inside and a stronger one outside
        if 2 * top != N and top + 3 + 3 * lobe < N // 2:
            y = tone(top, N, 1.0, rng.uniform(0, 6.28)) + tone(fb, N, 0.1, 1.0) + noise
            if rng.random() < 0.5:
                y = y + tone(gen.ri(rng, top + 2 + 2 * lobe, N // 2), N, 3.0, 2.0)
            full = m.call(compute_spectrum, y, **kw)
            m.equal("fundamental in band", int(full["plot_data"]["fundamental_bin"]), top, "fundamental bin of a tone in the last in-band bin (osr=%g, N=%d)" % (osr, N))
        m.nontrivial()
        m.sample(kind=kind, N=N, osr=osr, last_inband_bin=top, tone_bin=b, sndr=float(got["sndr_dbc"]), sfdr=float(got["sfdr_dbc"]))
    else:
        cb = gen.ri(rng, 2 + lobe, max(fb - 3 * lobe, 3 + lobe))
        if cb >= fb - lobe:
            m.skip("no room below the tone")
            return
        # whole-bin cutoffs only where cutoff/fs*N is exact in floating point
        f_cut = (cb - (rng.uniform(0.05, 0.95) if rng.random() < 0.5 or N & (N - 1) else 0.0)) * fs / N
        base = run(x, cutoff_freq=f_cut)
        lowb = [b for b in range(1 + lobe, cb - lobe)]
        if lowb:
            amp = 10 ** rng.uniform(-1, 1.3)
            y = x + tone(gen.pick(rng, lowb), N, amp, 1.0)
            y = y + tone(lowb[-1], N, amp, 2.0)
            got = run(y, cutoff_freq=f_cut)
            for k in KEYS:
                m.close("cutoff ignored", got[k], base[k], atol=1e-6, what="%s after adding tones below the cutoff bin %d" % (k, cb))
        if cb + lobe < fb - 2 * lobe - 1 and cb - lobe > lobe and win == "rectangular" and kw["nf_method"] in (3, 4) and all(cb != h for h in hb):
            a = 10 ** -1.5
            got = run(x + tone(cb, N, a, 0.7), cutoff_freq=f_cut)
            m.close("cutoff kept", got["sfdr_dbc"], gen.db(1 / a ** 2), atol=0.5, what="SFDR with a tone in the first bin at the cutoff (%d)" % cb)
        elif win == "rectangular" and cb > 1 and cb < fb - 1:
            a = 10 ** -1.5
            got = run(x + tone(cb, N, a, 0.7), cutoff_freq=f_cut, nf_method=3)
            m.close("cutoff kept", got["sfdr_dbc"], gen.db(1 / a ** 2), atol=0.5, what="SFDR with a tone in the first bin at the cutoff (%d)" % cb)
        if rng.random() < 0.4:
            p = m.call(analyze_spectrum_polar, x, max_code=2.0, harmonic=3, osr=osr, cutoff_freq=f_cut, fs=fs, win_type="boxcar", create_plot=False)
            q = m.call(compute_spectrum, x, max_scale_range=2.0, max_harmonic=3, osr=osr, cutoff_freq=f_cut, fs=fs, win_type="boxcar")["metrics"]
            m.close("cutoff ignored", p["sndr_dbc"], q["sndr_dbc"], atol=1e-6, what="cutoff through the polar entry point")
        m.nontrivial()
        m.sample(kind=kind, N=N, osr=osr, cutoff_bin=cb, sndr=float(base["sndr_dbc"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
