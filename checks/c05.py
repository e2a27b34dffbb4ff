"""C05 multi-run averaging and record layout."""
import sys
import warnings
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from math import gcd
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

PROPERTY = "C05"
RULE = ("batches of 2-12 runs with different start phases, amplitudes or noise; non-trivial = at least two runs that differ and were averaged, "
        "or a layout different from the canonical one")
REQUIRED_ORACLES = ["power average", "run order", "layout", "coherent shift", "coherent noise", "coherent single run", "layout warning", "rejects 3-D", "coherent band", "coherent cutoff", "coherent level"]
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1200}
KEYS = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz", "thd_dbc", "harmonics_dbc"]
KNOWN = ("coherent averaging of runs with different start phases through a non-rectangular window under-reports the "
         "signal power (main-lobe side bins are rotated as if they were harmonics)")


def cases(rng, tier):
    kinds = ["power", "order", "layout", "shift", "cnoise", "single", "winshift", "zero", "osr", "cut", "level"]
    for i in range(1400 if tier == "quick" else 6000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def lin(r):
    return 10 ** (np.asarray(r["plot_data"]["power_spectrum_db_plot"]) / 10)


def batch(rng, N, M, fb):
    n = np.arange(N)
    out = []
    for _ in range(M):
        s = rng.uniform(0.5, 1) * np.cos(2 * np.pi * fb * n / N + rng.uniform(0, 6.28))
        out.append(s + 3e-3 * s ** 2 + 2e-3 * s ** 3 + rng.uniform(-1, 1) + 10 ** rng.uniform(-4, -2.5) * rng.standard_normal(N))
    return np.array(out)


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [128, 255, 256, 500, 512, 1024], 0.02, [20000, 33000, 40000])
    M = gen.ri(rng, 2, 13)
    win = gen.pick(rng, gen.WINDOWS)
    fb = gen.coprime_bin(rng, N, 12, N // 2 - 12)
    kw = dict(max_scale_range=1.7, fs=gen.logu(rng, 1, 1e8), max_harmonic=gen.ri(rng, 2, 8), nf_method=gen.ri(rng, 0, 5), win_type=win, side_bin=gen.LOBE[win])
    if kind == "power":
        x = batch(rng, N, M, fb)
        r = m.call(compute_spectrum, x, **kw)
        ones = [m.call(compute_spectrum, row, **kw) for row in x]
        m.close("power average", lin(r), np.mean([lin(o) for o in ones], axis=0), rtol=1e-6, atol=1e-18, what="averaged power spectrum of %d runs" % M)
        if all(int(o["plot_data"]["fundamental_bin"]) == int(r["plot_data"]["fundamental_bin"]) for o in ones):
            m.close("power average", 10 ** (r["metrics"]["sig_pwr_dbfs"] / 10), np.mean([10 ** (o["metrics"]["sig_pwr_dbfs"] / 10) for o in ones]), rtol=1e-9, what="averaged signal power")
        m.equal("power average", (int(r["M"]), int(r["N"])), (M, N), "reported runs and length")
    elif kind == "order":
        x = batch(rng, N, M, fb)
        coh = bool(rng.random() < 0.5)
        if coh:
            kw.update(win_type="rectangular", side_bin=0)
        r = m.call(compute_spectrum, x, coherent_averaging=coh, **kw)["metrics"]
        q = m.call(compute_spectrum, x[rng.permutation(M)], coherent_averaging=coh, **kw)["metrics"]
        for k in KEYS:
            m.close("run order", q[k], r[k], atol=1e-6, what="%s after permuting the runs" % k)
    elif kind == "layout":
        if N == 128:
            M = gen.ri(rng, 20, 63)
        x = batch(rng, N, M, fb)
        if N == 128:
            # twice as many runs as samples is still runs by samples
            many = batch(rng, N, 2 * N, fb)
            r = m.call(compute_spectrum, many, **kw)
            m.equal("layout", (int(r["M"]), int(r["N"])), (2 * N, N), "runs and length of %d runs of %d samples" % (2 * N, N))
            m.close("layout", lin(r), np.mean([lin(compute_spectrum(row, **kw)) for row in many], axis=0), rtol=1e-6, atol=1e-18, what="average of %d runs of %d samples" % (2 * N, N))
        kw["max_scale_range"] = gen.pick(rng, [None, 1.7])
        one = m.call(compute_spectrum, x[0], **kw)["metrics"]
        for shape, arr in (("(1,N)", x[:1]), ("(N,1)", x[:1].T), ("list", [float(v) for v in x[0]])):
            q = m.call(compute_spectrum, arr, **kw)["metrics"]
            for k in KEYS:
                m.close("layout", q[k], one[k], atol=1e-9, what="%s for layout %s" % (k, shape))
        if N > 2 * M:
            ref = m.call(compute_spectrum, x, **kw)["metrics"]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                q = compute_spectrum(x.T, **kw)["metrics"]
            for k in KEYS:
                m.close("layout", q[k], ref[k], atol=1e-9, what="%s for samples-by-runs data" % k)
            m.check("layout warning", any(issubclass(i.category, UserWarning) for i in w), "no warning when the matrix was transposed")
        m.expect_raise("rejects 3-D", ValueError, compute_spectrum, np.zeros((2, 3, 40)))
        m.expect_raise("rejects bad range", ValueError, compute_spectrum, x[0], max_scale_range=[0, 1, 2])
    elif kind in ("shift", "winshift"):
        # circularly shifted copies are the same waveform with another start phase
        n = np.arange(N)
        s = np.cos(2 * np.pi * fb * n / N + rng.uniform(0, 6.28))
        x0 = s + 5e-3 * s ** 2 + 3e-3 * s ** 3 + gen.flat_noise(rng, N, 1e-4)
        shifts = [0] + [gen.ri(rng, 1, N) for _ in range(M - 1)]
        if kind == "shift":
            kw.update(win_type=gen.pick(rng, ["rectangular", "boxcar"]), side_bin=0)
            x = np.array([np.roll(x0, k) for k in shifts])
            one = m.call(compute_spectrum, x0, **kw)["metrics"]
            r = m.call(compute_spectrum, x, coherent_averaging=True, **kw)
            for k in KEYS:
                if k == "snr_dbc" or k == "noise_floor_dbfs" or k == "nsd_dbfs_hz":
                    if kw["nf_method"] in (0, 1):
                        continue  # median correction depends on the number of runs
                m.close("coherent shift", r["metrics"][k], one[k], atol=1e-5, what="%s of %d re-phased copies, coherently averaged" % (k, M))
            m.check("coherent shift", r["plot_data"]["is_coherent"], "result not marked as coherent")
        else:
            w = gen.pick(rng, ["hann", "blackman", "hamming", "blackmanharris", "flattop"])
            kw.update(win_type=w, side_bin=gen.LOBE[w])
            one = m.call(compute_spectrum, x0, **kw)["metrics"]["sig_pwr_dbfs"]
            same = m.call(compute_spectrum, np.array([x0] * M), coherent_averaging=True, **kw)["metrics"]["sig_pwr_dbfs"]
            m.close("coherent same phase", same, one, atol=1e-6, what="signal power of %d identical runs (%s)" % (M, w))
            r = m.call(compute_spectrum, np.array([np.roll(x0, k) for k in shifts]), coherent_averaging=True, **kw)["metrics"]["sig_pwr_dbfs"]
            if r < one - 1e-6 and len(set(shifts)) > 1:
                m.known_finding(KNOWN)
                m._count("windowed coherent (known finding)")
            else:
                m.close("coherent shift", r, one, atol=1e-5, what="signal power of re-phased copies (%s)" % w)
    elif kind == "cnoise":
        N = gen.pick(rng, [512, 1024])
        M = gen.pick(rng, [8, 16, 32])
        fb = gen.coprime_bin(rng, N, 12, N // 2 - 12)
        n = np.arange(N)
        sig = 10 ** rng.uniform(-3, -2)
        a2, a3 = 0.02, 0.01
        x = []
        for _ in range(M):
            th = rng.uniform(0, 6.28)
            u = 2 * np.pi * fb * n / N + th
            x.append(np.cos(u) + a2 * np.cos(2 * u + 0.3) + a3 * np.cos(3 * u - 1.1) + sig * rng.standard_normal(N))
        x = np.array(x)
        kw.update(win_type="rectangular", side_bin=0, max_harmonic=3, nf_method=3)
        a = m.call(compute_spectrum, x, coherent_averaging=False, **kw)["metrics"]
        b = m.call(compute_spectrum, x, coherent_averaging=True, **kw)["metrics"]
        m.close("coherent noise", b["snr_dbc"] - a["snr_dbc"], 10 * np.log10(M), atol=1.5, what="SNR gain from coherently averaging %d runs" % M)
        m.close("coherent noise", b["sig_pwr_dbfs"], a["sig_pwr_dbfs"], atol=0.05, what="signal power, coherent versus power average")
        m.close("coherent noise", b["harmonics_dbc"], gen.db(np.array([a2, a3]) ** 2), atol=0.05 + 8.7 * 7 * sig * np.sqrt(2 / (N * M)) / a3, what="harmonics after coherent averaging")
    elif kind == "single":
        x = batch(rng, N, 1, fb)[0]
        kw["win_type"], kw["side_bin"] = win, gen.LOBE[win]
        a = m.call(compute_spectrum, x, coherent_averaging=False, **kw)
        b = m.call(compute_spectrum, x, coherent_averaging=True, **kw)
        for k in KEYS:
            m.close("coherent single run", b["metrics"][k], a["metrics"][k], atol=1e-6, what="%s of one run, coherent versus power" % k)
        cs = np.asarray(b["plot_data"]["complex_spectrum"])
        m.close("coherent single run", np.abs(cs[1:]) ** 2, lin(a)[1:], rtol=1e-6, atol=1e-18, what="|complex spectrum|^2")
        f = int(b["plot_data"]["fundamental_bin"])
        m.close("coherent single run", np.angle(cs[f]), 0.0, atol=1e-6, what="aligned fundamental phase")
    elif kind in ("osr", "cut", "level"):
        # re-phased copies of one waveform, coherently averaged, with band limits or at a low level
        n = np.arange(N)
        osr = gen.pick(rng, [2, 3, 4, 2.5])
        top = int(np.floor(N / (2 * osr)))
        fb = gen.coprime_bin(rng, N, 5, top - 2)
        s = np.cos(2 * np.pi * fb * n / N + rng.uniform(0, 6.28))
        x0 = s + 5e-3 * s ** 2 + 3e-3 * s ** 3 + gen.flat_noise(rng, N, 1e-4)
        kw.update(win_type="rectangular", side_bin=0, nf_method=gen.ri(rng, 2, 5), osr=osr)
        x = np.array([np.roll(x0, k) for k in [0] + [gen.ri(rng, 1, N) for _ in range(M - 1)]])
        keys = [k for k in KEYS if k not in ("thd_dbc", "harmonics_dbc")]
        if kind == "osr":
            hb = {gen.fold(h * fb, N) for h in range(2, 60)}
            free = [b for b in range(top + 2, N // 2) if b not in hb]
            b = gen.pick(rng, free)
            kw["max_scale_range"] = 9.0
            y = x + np.array([3.0 * np.cos(2 * np.pi * ((b * n) % N) / N + rng.uniform(0, 6.28)) for _ in range(M)])
            one = m.call(compute_spectrum, x0, **kw)["metrics"]
            r = m.call(compute_spectrum, y, coherent_averaging=True, **kw)
            m.equal("coherent band", int(r["plot_data"]["fundamental_bin"]), fb, "fundamental bin with a stronger tone outside the band")
            for k in keys:
                m.close("coherent band", r["metrics"][k], one[k], atol=1e-5, what="%s of %d re-phased copies with a strong tone at bin %d beyond the band edge %d" % (k, M, b, top))
        elif kind == "cut":
            cb = gen.ri(rng, 2, fb - 2)
            kw["cutoff_freq"] = (cb - 0.5) * kw["fs"] / N
            one = m.call(compute_spectrum, x0, **kw)["metrics"]
            r = m.call(compute_spectrum, x, coherent_averaging=True, **kw)
            for k in keys:
                m.close("coherent cutoff", r["metrics"][k], one[k], atol=1e-5, what="%s of %d re-phased copies with a cutoff at bin %d" % (k, M, cb))
            cs = np.abs(np.asarray(r["plot_data"]["complex_spectrum"])) ** 2
            m.check("coherent cutoff", cs[:cb].max() <= 1e-19, lambda: "complex spectrum still holds %.3g below the cutoff" % cs[:cb].max())
            m.close("coherent cutoff", cs[cb:], lin(r)[cb:], rtol=1e-6, atol=1e-18, what="|complex spectrum|^2 above the cutoff")
        else:
            g = 10.0 ** -gen.ri(rng, 2, 5)
            a = m.call(compute_spectrum, x, coherent_averaging=True, **kw)["metrics"]
            b = m.call(compute_spectrum, x * g, coherent_averaging=True, **kw)["metrics"]
            m.close("coherent level", b["sig_pwr_dbfs"], a["sig_pwr_dbfs"] + gen.db(g * g), atol=1e-6, what="signal power of runs at %g of the level" % g)
            m.close("coherent level", b["sndr_dbc"], a["sndr_dbc"], atol=0.02, what="SNDR of runs at %g of the level" % g)
            quiet = x * np.where(np.arange(M) == 0, 1.0, g)[:, None]
            d = m.call(compute_spectrum, quiet, coherent_averaging=True, **kw)["metrics"]
            m.close("coherent level", d["sig_pwr_dbfs"], a["sig_pwr_dbfs"] + gen.db(((1 + (M - 1) * g) / M) ** 2), atol=1e-6, what="signal power when all runs but one are at %g of the level" % g)
    else:
        x = batch(rng, N, M, fb)
        kw.update(win_type="rectangular", side_bin=0)
        y = np.vstack([x, np.zeros((2, N))])[rng.permutation(M + 2)]
        a = m.call(compute_spectrum, x, coherent_averaging=True, **kw)["metrics"]
        b = m.call(compute_spectrum, y, coherent_averaging=True, **kw)["metrics"]
        for k in ("sig_pwr_dbfs", "sndr_dbc", "sfdr_dbc", "thd_dbc"):
            m.close("empty runs", b[k], a[k], atol=1e-6, what="%s with all-zero runs added to a coherent average" % k)
    m.nontrivial()
    m.sample(kind=kind, N=N, runs=M, window=kw["win_type"])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
