"""C07 spectra are calibrated: total power is conserved and tones read their true dBFS through every window."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.spectrum import compute_spectrum

PROPERTY = "C07"
RULE = ("arbitrary records (tones, noise, steps, ramps, random walks) with every window; non-trivial = non-constant record")
REQUIRED_ORACLES = ["total power", "tone dBFS", "frequency axis", "dc removed", "window alias"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}


def cases(rng, tier):
    for i in range(5600 if tier == "quick" else 28000):
        yield {"seed": gen.seed_of(rng), "kind": ["parseval", "tone", "alias"][i % 3], "win": gen.WINDOWS[i % len(gen.WINDOWS)]}


def lin(r):
    return 10 ** (np.asarray(r["plot_data"]["power_spectrum_db_plot"]) / 10)


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    win = gen.pick(rng, gen.WINDOWS)
    N = gen.length(rng, [33, 64, 127, 128, 200, 255, 256, 501, 1000, 1024, 2047, 2048])
    fs = gen.logu(rng, 1e-3, 1e10)
    n = np.arange(N)
    if c["kind"] == "parseval":
        shape = gen.pick(rng, ["noise", "ramp", "step", "walk", "square", "nyquist", "impulse"])
        if shape == "noise":
            x = rng.standard_normal(N)
        elif shape == "ramp":
            x = n / N + 1e-3 * rng.standard_normal(N)
        elif shape == "step":
            x = (n > rng.integers(1, N - 1)).astype(float)
        elif shape == "walk":
            x = np.cumsum(rng.standard_normal(N))
        elif shape == "square":
            x = np.sign(np.sin(2 * np.pi * rng.uniform(1, 9) * n / N + 0.1))
        elif shape == "nyquist":
            x = (-1.0) ** n + 1e-2 * rng.standard_normal(N)
        else:
            x = np.zeros(N)
            x[gen.ri(rng, 0, N)] = 1.0
        x = x * gen.logu(rng, 1e-3, 1e3) + rng.uniform(-5, 5)
        peak = gen.logu(rng, 0.1, 10) * np.ptp(x)
        p = lin(m.call(compute_spectrum, x, fs=fs, max_scale_range=peak, win_type=win, side_bin=1))
        w = gen.window(win, N)
        y = (x - x.mean()) / peak
        # a unit-amplitude tone has mean square 1/2 and must total 1
        m.close("total power", p.sum(), 2 * np.mean((y * w) ** 2) / np.mean(w ** 2), rtol=1e-7, atol=1e-19 * len(p), what="sum of the power spectrum (%s, N=%d, %s)" % (win, N, shape))
        m.check("dc removed", win not in ("rectangular", "boxcar") or p[0] < 1e-12 * p.sum(), lambda: "DC bin holds %g of the power after mean removal" % (p[0] / p.sum()))
        m.nontrivial()
        m.sample(kind="parseval", shape=shape, N=N, window=win, total_db=float(gen.db(p.sum())))
    elif c["kind"] == "tone":
        lobe = gen.LOBE[win]
        N = gen.pick(rng, [128, 255, 256, 501, 1000, 1024, 2047])
        fb = gen.ri(rng, 2 * lobe + 2, N // 2 - 2 * lobe - 1)
        A = gen.logu(rng, 1e-4, 1e4)
        lv = rng.uniform(-60, 0)
        peak = A * 10 ** (-lv / 20)
        x = A * np.sin(2 * np.pi * fb * n[:N] / N + rng.uniform(0, 6.28)) if N <= len(n) else A * np.sin(2 * np.pi * fb * np.arange(N) / N + rng.uniform(0, 6.28))
        x = x + A * 1e-5 * rng.standard_normal(N) + rng.uniform(-2, 2) * A
        form = gen.ri(rng, 0, 3)
        msr = [peak, (-peak, peak), [peak * 0.5, peak * 2.5]][form]
        r = m.call(compute_spectrum, x, fs=fs, max_scale_range=msr, win_type=win, side_bin=lobe)
        m.close("tone dBFS", r["metrics"]["sig_pwr_dbfs"], lv, atol=0.01, what="tone level (%s, N=%d)" % (win, N))
        m.close("tone dBFS", r["plot_data"]["fundamental_bin"] * fs / N, fb * fs / N, rtol=1e-12, what="tone frequency")
        f = np.asarray(r["plot_data"]["freq"])
        m.close("frequency axis", f, np.arange(N // 2 + 1) * fs / N, rtol=1e-12, what="frequency axis")
        m.equal("frequency axis", len(r["plot_data"]["power_spectrum_db_plot"]), N // 2 + 1, "number of spectrum bins")
        if lobe < 8:
            rr = m.call(compute_spectrum, x, win_type=win, side_bin=lobe)
            want = 20 * np.log10(A / (np.ptp(x) / 2))
            m.close("tone dBFS", rr["metrics"]["sig_pwr_dbfs"], want, atol=0.01, what="tone level against the record's own range")
        m.nontrivial()
        m.sample(kind="tone", N=N, window=win, level_dbfs=lv, reported=float(r["metrics"]["sig_pwr_dbfs"]))
    else:
        x = np.sin(2 * np.pi * 7.3 * n / N) + 0.01 * rng.standard_normal(N)
        a = m.call(compute_spectrum, x, win_type=win, side_bin=2)
        for other in (win.upper(), win.capitalize()):
            b = m.call(compute_spectrum, x, win_type=other, side_bin=2)
            m.close("window alias", lin(b), lin(a), rtol=1e-9, what="window name %r" % other)
        if win in ("rectangular", "boxcar"):
            b = m.call(compute_spectrum, x, win_type="boxcar" if win == "rectangular" else "rectangular")
            a = m.call(compute_spectrum, x, win_type=win)
            m.close("window alias", lin(b), lin(a), rtol=1e-9, what="boxcar and rectangular")
            m.close("window alias", b["metrics"]["sndr_dbc"], a["metrics"]["sndr_dbc"], atol=1e-9, what="boxcar and rectangular SNDR")
        m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
