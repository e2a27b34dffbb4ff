"""C23 performance versus oversampling ratio."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.spectrum import sweep_performance_vs_osr
from adctoolbox.oversampling import perfosr
from adctoolbox import fit_sine_4param

PROPERTY = "C23"
RULE = "random tones with white, shaped or tonal error, odd and even lengths, default and arbitrary (unsorted, repeated) ratios; non-trivial = more than two different bandwidths"
REQUIRED_ORACLES = ["definition", "order of ratios", "monotone", "enob", "default ratios", "white noise", "wrapper", "rejects", "scale", "plot independence", "spur"]
MIN_NONTRIVIAL = {"quick": 60, "thorough": 600}


def cases(rng, tier):
    for i in range(400 if tier == "quick" else 2000):
        yield {"seed": gen.seed_of(rng), "kind": ["defn", "white", "order", "defn", "spur", "reject", "plot", "default"][i % 8]}


def inband(n, osr):
    e = n / (2 * osr)
    r = round(e)
    if abs(e - r) < 1e-9 * max(1, e):
        e = r
    return max(1, min(int(np.floor(e)) + 1, n // 2 + 1))


def reference(x, osr):
    f = fit_sine_4param(x)
    n = len(x)
    err = x - f["fitted_signal"]
    w = np.sin(np.pi * np.arange(n) / n) ** 2
    E = np.abs(np.fft.rfft(err * w)) ** 2 / np.mean(w ** 2) / n ** 2 * 4
    S = f["amplitude"] ** 2 / 2
    k = [inband(n, o) for o in osr]
    cs = np.cumsum(E)
    return 10 * np.log10(S / cs[np.array(k) - 1]), 10 * np.log10(S / np.array([E[:j].max() for j in k]))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [512, 1000, 1001, 2048, 777], 0.04)
    n = np.arange(N)
    f = (gen.ri(rng, 5, N // 2 - 5) + rng.uniform(-0.3, 0.3)) / N
    A = gen.logu(rng, 1e-3, 1e3)
    x = A * np.cos(2 * np.pi * f * n + rng.uniform(0, 6.28)) + A * rng.uniform(-1, 1)
    s = A * 10 ** rng.uniform(-5, -1.5)
    e = s * rng.standard_normal(N)
    if rng.random() < 0.4:
        e = np.convolve(rng.standard_normal(N + 2) * s, [1, -2, 1], mode="valid")
    x = x + e + s * 3 * np.cos(2 * np.pi * rng.uniform(0.02, 0.48) * n)
    osr = np.exp(rng.uniform(0, np.log(N / 4), gen.ri(rng, 3, 12)))
    if rng.random() < 0.3:
        osr = np.round(osr)
    if rng.random() < 0.4:
        # bands so narrow that only one, two or three bins remain
        osr = np.concatenate([N * rng.uniform(0.17, 0.9, gen.ri(rng, 1, 4)), osr])
    if rng.random() < 0.4:
        osr = np.concatenate([osr, osr[:2]])
    if kind == "reject":
        for bad in (0, -1, 2.5):
            m.expect_raise("rejects", ValueError, perfosr, x, harmonic=bad)
        for bad in (0, -2):
            m.expect_raise("rejects", ValueError, perfosr, x, smooth=bad)
        for bad in ([1, 0], [-1.0], [2, -3]):
            m.expect_raise("rejects", ValueError, perfosr, x, osr=bad)
        m.nontrivial()
        return
    r = m.call(sweep_performance_vs_osr, x, osr=osr, create_plot=False)
    got = {k: np.asarray(r[k], float) for k in ("osr", "sndr", "sfdr", "enob")}
    m.close("order of ratios", got["osr"], osr, atol=0, what="ratios are returned in the order given")
    m.close("enob", got["enob"], (got["sndr"] - 1.76) / 6.02, atol=1e-9, what="ENOB from SNDR")
    if kind in ("defn", "spur"):
        sn, sf = reference(x, osr)
        m.close("definition", got["sndr"], sn, atol=1e-3, what="SNDR against the cumulative in-band error")
        m.close("definition", got["sfdr"], sf, atol=1e-3, what="SFDR against the largest in-band error bin")
        if kind == "spur":
            fb = gen.ri(rng, 20, N // 2 - 20)
            o_in, o_out = N / (2.0 * (fb + 4)), N / (2.0 * (fb - 4))
            y = x + 0.2 * A * np.cos(2 * np.pi * fb * n / N)
            a = m.call(sweep_performance_vs_osr, x, osr=[o_in, o_out], create_plot=False)
            b = m.call(sweep_performance_vs_osr, y, osr=[o_in, o_out], create_plot=False)
            if abs(fb - f * N) > 12:
                m.check("spur", b["sndr"][0] < 22, lambda: "an in-band spur 14 dB below the tone leaves SNDR at %.1f dB" % b["sndr"][0])
                m.check("spur", b["sndr"][1] > b["sndr"][0] + 3 or a["sndr"][1] < 25, lambda: "a spur just outside the band still dominates: %.1f dB inside, %.1f dB outside" % (b["sndr"][0], b["sndr"][1]))
    elif kind == "white":
        y = A * np.cos(2 * np.pi * f * n + 1) + s * rng.standard_normal(N)
        os_ = [1.0, 2.0, 4.0]
        q = m.call(sweep_performance_vs_osr, y, osr=os_, create_plot=False)
        true = 10 * np.log10(A ** 2 / 2 / s ** 2) + 10 * np.log10(os_)
        d = np.asarray(q["sndr"]) - true
        tol = 4.343 * 7 * np.sqrt(2 * 1.94 * np.array(os_) / N) + 0.15
        ok0 = np.all(np.abs(d) < tol)
        ok3 = np.all(np.abs(d + 3.0103) < tol)
        # the sweep removes the tone with the toolbox's one-step fit; judged where that fit leaves only the noise
        if np.std(y - fit_sine_4param(y)["fitted_signal"]) < s * (1.02 + 5 / np.sqrt(2 * N)):
            m.check("white noise", ok0 or ok3, lambda: "SNDR minus the true white-noise SNDR is %s dB" % np.round(d, 2))
            if ok3 and not ok0:
                m.known_finding("SNDR and SFDR versus oversampling ratio are 3.01 dB below the physical value: the error spectrum is scaled as one-sided amplitude squared while the tone uses amplitude squared over two (the MATLAB reference does the same); relative behaviour stays fully checked")
        else:
            m.check("white noise", np.all(np.diff(q["sndr"]) > 0), "SNDR does not improve with the ratio")
    elif kind == "order":
        p = rng.permutation(len(osr))
        q = m.call(sweep_performance_vs_osr, x, osr=osr[p], create_plot=False)
        for k in ("sndr", "sfdr", "enob"):
            m.close("order of ratios", q[k], got[k][p], atol=1e-9, what="%s after reordering the ratios" % k)
        one = m.call(sweep_performance_vs_osr, x, osr=osr[:1], create_plot=False)
        m.close("order of ratios", one["sndr"], got["sndr"][:1], atol=1e-9, what="a ratio on its own")
        g = 2.0 ** gen.ri(rng, -8, 9)
        q = m.call(sweep_performance_vs_osr, x * g, osr=osr, create_plot=False)
        m.close("scale", q["sndr"], got["sndr"], atol=1e-2, what="SNDR of the scaled record")
        w = m.call(perfosr, x, osr=osr)
        for a, k in zip(w, ("osr", "sndr", "sfdr", "enob")):
            m.close("wrapper", a, got[k], atol=0, what="compatibility wrapper: %s" % k)
        q = m.call(sweep_performance_vs_osr, x.reshape(-1, 1), osr=list(osr), create_plot=False)
        m.close("wrapper", q["sndr"], got["sndr"], atol=0, what="column record and list of ratios")
    elif kind == "plot":
        fig, ax = plt.subplots()
        q = m.call(sweep_performance_vs_osr, x, osr=osr, create_plot=True, ax=ax, logscale=bool(rng.integers(2)), harmonic=gen.ri(rng, 1, 8))
        m.close("plot independence", q["sndr"], got["sndr"], atol=0, what="SNDR with a plot")
        lines = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(osr)]
        m.check("plot independence", any(np.array_equal(ln.get_ydata(), got["sndr"]) for ln in lines) and any(np.array_equal(ln.get_ydata(), got["sfdr"]) for ln in lines), "plotted curves differ from the returned values")
        q = m.call(perfosr, x, disp=True, osr=np.sort(osr), smooth=gen.pick(rng, [None, 1, 4]))
        m.close("plot independence", q[1], got["sndr"][np.argsort(osr, kind="stable")], atol=1e-9, what="SNDR with the wrapper's plot")
        plt.close("all")
    else:
        d = m.call(sweep_performance_vs_osr, x, create_plot=False)
        nb = N // 2
        m.close("default ratios", d["osr"], (N / 2) / np.arange(nb, 0, -1), rtol=1e-12, what="default ratios")
        sn, sf = reference(x, d["osr"])
        m.close("default ratios", d["sndr"], sn, atol=1e-3, what="SNDR at the default ratios")
        m.check("monotone", np.all(np.diff(d["sndr"]) > -1e-9) and np.all(np.diff(d["sfdr"]) > -1e-9), "SNDR or SFDR falls as the band narrows")
        m.check("monotone", np.all(np.asarray(d["sfdr"]) >= np.asarray(d["sndr"]) - 1e-9), "SFDR below SNDR")
    o = np.argsort(osr)
    m.check("monotone", np.all(np.diff(got["sndr"][o]) > -1e-9), "SNDR falls as the ratio rises")
    m.nontrivial(len({inband(N, v) for v in osr}) > 2)
    m.sample(kind=kind, N=N, ratios=osr, sndr=got["sndr"])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
