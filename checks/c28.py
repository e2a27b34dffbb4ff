"""C28 harmonic decomposition of a record."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.aout import decompose_harmonic_error, analyze_decomposition_time, analyze_decomposition_polar, decompose_harmonics

PROPERTY = "C28"
RULE = "tones with harmonics of known size and phase, offset and noise; coherent or with the frequency given; one or several runs, rows or columns; non-trivial = at least one harmonic above the noise"
REQUIRED_ORACLES = ["conservation", "harmonic size", "harmonic phase", "fundamental", "orthogonal", "residual size", "time shift", "units", "runs", "legacy", "plot independence", "frequency", "input kept", "decibels"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    kinds = ["auto", "given", "fixed", "shift", "runs", "units", "plot"]
    for i in range(840 if tier == "quick" else 4900):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def wrap(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [512, 777, 1000, 1024, 2003], 0.04)
    H = gen.ri(rng, 1, 9)
    if rng.random() < 0.04:
        N, H = gen.pick(rng, [4096, 5003, 8192]), gen.ri(rng, 9, 25)
    n = np.arange(N)
    coh = kind in ("auto", "shift", "units", "plot", "runs") or rng.random() < 0.4
    for _ in range(60):
        b = gen.ri(rng, 8, N // 2 - 8) + (0 if coh else rng.uniform(-0.45, 0.45))
        al = [abs(h * b - N * np.round(h * b / N)) for h in range(1, H + 1)]
        if min(al) > 4 and min(abs(a - N / 2) for a in al) > 4 and (H == 1 or min(abs(a - q) for i, a in enumerate(al) for q in al[:i]) > 4):
            break
    else:
        return m.skip("harmonics overlap")
    f = b / N
    A = gen.logu(rng, 1e-3, 1e4)
    amp = np.array([A] + [A * 10 ** rng.uniform(-4, -1.2) for _ in range(H - 1)])
    th = rng.uniform(-np.pi, np.pi, H)
    dc = A * rng.uniform(-2, 2)
    s = A * 10 ** rng.uniform(-7.3, -3)
    parts = [amp[h] * np.cos(2 * np.pi * f * (h + 1) * n + th[h]) for h in range(H)]
    e = s * rng.standard_normal(N)
    x = dc + sum(parts) + e
    keep = x.copy()
    kw = dict(n_harmonics=H)
    tolf = 0.0
    if kind == "given":
        kw.update(frequency=f, max_iterations=gen.ri(rng, 1, 4))
    elif kind in ("fixed", "shift") or not coh:
        kw.update(frequency=f, max_iterations=0)
    g = m.call(decompose_harmonic_error, x, **kw)
    m.equal("input kept", x, keep, "caller's record")
    tot = g["fundamental_signal"] + g["harmonic_signal"] + g["noise_residual"]
    m.close("conservation", tot, x, atol=1e-9 * (A + abs(dc)), what="fundamental + harmonics + residual")
    m.close("conservation", g["reconstructed_signal"], g["fundamental_signal"] + g["harmonic_signal"], atol=1e-9 * (A + abs(dc)), what="reconstruction")
    # frequency error of the tone fit: noise and, away from coherence, the harmonics themselves
    fe = abs(g["fundamental_freq"] - f)
    if kind in ("fixed", "shift") or (not coh and kind != "given"):
        m.equal("frequency", float(g["fundamental_freq"]), float(f), "frequency used without refinement")
    else:
        m.check("frequency", fe * N < 8 * s / A * np.sqrt(6) / (np.pi * N ** 0.5) + amp[1:].sum() / A * 0.1 + 1e-9, lambda: "frequency error %.3g bins" % (fe * N))
    drift = 2 * np.pi * fe * N  # phase slip across the record
    tol = 8 * s * np.sqrt(2 / N) + A * (0.1 * drift + 1e-9)
    if fe * N < 0.02:
        m.close("harmonic size", np.asarray(g["magnitudes"]) / 2, amp, atol=tol + amp * np.arange(1, H + 1) * drift, what="size of harmonics 1..%d (peak to peak over two)" % H)
        want = wrap(-(th - np.arange(1, H + 1) * th[0]))
        d = np.abs(wrap(g["phases"] - want))
        slip = np.arange(1, H + 1) * drift  # phases refer to sample 0 while the fit is best at mid-record
        m.check("harmonic phase", np.all(d < 2 * np.arange(1, H + 1) * tol / A + 3 * tol / amp + 2 * slip + 1e-9), lambda: "phase of harmonics relative to the fundamental off by %s rad" % np.round(d, 4))
        m.check("harmonic phase", np.all(np.abs(g["phases"]) <= np.pi + 1e-9), "a relative phase outside half a turn either way")
        m.close("harmonic phase", g["phases"][0], 0.0, atol=1e-9, what="phase of the fundamental itself")
    # optimality at the frequency used: the residual holds none of the fitted components
    ff = g["fundamental_freq"]
    B = np.column_stack([np.ones(N)] + [q(2 * np.pi * ff * h * n) for h in range(1, H + 1) for q in (np.cos, np.sin)])
    m.close("orthogonal", B.T @ g["noise_residual"] / N, np.zeros(2 * H + 1), atol=1e-9 * A, what="components left in the residual")
    P = np.linalg.lstsq(B, x, rcond=None)[0]
    m.close("fundamental", g["fundamental_signal"], B[:, :3] @ P[:3], atol=1e-8 * (A + abs(dc)), what="offset plus fundamental")
    m.close("harmonic size", g["magnitudes"], 2 * np.hypot(P[1::2], P[2::2]), rtol=1e-7, atol=1e-9 * A, what="sizes against an independent least-squares solution")
    m.close("harmonic phase", np.abs(wrap(g["phases"] - (np.arctan2(P[2::2], P[1::2]) - np.arange(1, H + 1) * np.arctan2(P[2], P[1])))) * np.minimum(1, amp / s), np.zeros(H), atol=1e-6, what="phases against an independent least-squares solution")
    r = np.sqrt(np.mean(np.square(g["noise_residual"])))
    m.close("residual size", g["residual_rms"], r * 2 * np.sqrt(2), rtol=1e-9, what="residual as peak-to-peak of an equal-power sine")
    if fe * N < 1e-4 * s / A * np.sqrt(N) or kind == "fixed":
        m.close("residual size", r, s, rtol=6 / np.sqrt(2 * N) + H * 1.5 / N + 0.02, what="residual against the injected noise")
    span = np.ptp(x)
    m.close("decibels", g["noise_db"], 20 * np.log10(g["residual_rms"] / span), atol=1e-8, what="residual level")
    m.close("decibels", g["magnitudes_db"], 20 * np.log10(np.asarray(g["magnitudes"]) / span), atol=1e-6, what="harmonic levels relative to the record's span")
    if kind == "shift":
        k = gen.ri(rng, 1, N)
        q = m.call(decompose_harmonic_error, np.roll(x, -k), **kw)
        big = amp > 30 * s
        m.check("time shift", np.all(np.abs(wrap(q["phases"] - g["phases"]))[big] < 0.03 + (2 * np.arange(1, H + 1) * (drift + 1e-6))[big] + 3 * tol / amp[big]), "relative phases depend on the starting sample")
        m.close("time shift", q["magnitudes"], g["magnitudes"], rtol=1e-3, atol=2 * tol, what="sizes after starting later")
    elif kind == "units":
        k = 2.0 ** gen.ri(rng, -12, 13)
        o = A * rng.uniform(-5, 5)
        q = m.call(decompose_harmonic_error, x * k + o, **kw)
        m.close("units", q["magnitudes"] / k, g["magnitudes"], rtol=1e-6, atol=1e-6 * A, what="sizes in other units")
        m.close("units", q["magnitudes_db"], g["magnitudes_db"], atol=1e-3 + 1e-4 * A / s * 1e-4, what="levels in other units")
        m.close("units", q["harmonic_signal"] / k, g["harmonic_signal"], atol=1e-5 * A, what="harmonic record in other units")
    elif kind == "runs":
        R = gen.ri(rng, 2, 6)
        X = np.stack([x + s * rng.standard_normal(N) for _ in range(R)])
        q = m.call(decompose_harmonic_error, X, **kw)
        w = m.call(decompose_harmonic_error, X.mean(0), **kw)
        m.close("runs", q["noise_residual"], w["noise_residual"], atol=1e-9 * A, what="several runs are averaged")
        m.close("runs", [q["noise_db"], q["residual_rms"]], [w["noise_db"], w["residual_rms"]], rtol=1e-9, what="residual level of several runs")
        m.close("runs", q["magnitudes_db"], w["magnitudes_db"], atol=1e-9, what="harmonic levels of several runs")
        q = m.call(decompose_harmonic_error, x.reshape(-1, 1), **kw)
        m.close("runs", q["magnitudes"], g["magnitudes"], rtol=1e-12, what="single run given as a column")
    elif kind == "plot":
        for fn in (analyze_decomposition_time, analyze_decomposition_polar):
            k2 = dict(harmonic=H)
            for cp in (False, True):
                q = m.call(fn, x, create_plot=cp, **k2)
                m.close("plot independence", q["magnitudes"], g["magnitudes"], atol=0, what="%s create_plot=%s" % (fn.__name__, cp))
                plt.close("all")
        t = m.call(decompose_harmonics, x, freq=f, harmonic=H, disp=0)
        w = m.call(decompose_harmonic_error, x, n_harmonics=H, frequency=f, max_iterations=0)
        m.close("legacy", t[0], w["fundamental_signal"], atol=0, what="legacy fundamental")
        m.close("legacy", t[1], x - t[0], atol=1e-9 * (A + abs(dc)), what="legacy total error")
        m.close("legacy", [t[2], t[3]], [w["harmonic_signal"], w["noise_residual"]], atol=0, what="legacy harmonic and residual records")
    m.nontrivial(H > 1)
    m.sample(kind=kind, N=N, harmonics=H, bin=float(b), worst_phase_wrapped=float(np.max(np.abs(g["phases"]))))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
