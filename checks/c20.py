"""C20 fractional delay."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.timeinterleave import fractional_delay_fft, fractional_delay_farrow

PROPERTY = "C20"
RULE = "random band-limited periodic records, polynomials and arbitrary records; delays of both signs from zero to several samples; odd/even lengths; non-trivial = non-zero delay"
REQUIRED_ORACLES = ["exact delay", "whole samples", "composition", "energy", "linear", "zero delay", "polynomial", "integer shift", "rejects", "rate", "input kept"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    kinds = ["fft", "fftint", "comp", "poly", "farint", "fft", "poly", "reject"]
    for i in range(16000 if tier == "quick" else 80000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def bandlimited(rng, N):
    top = (N - 1) // 2
    k = rng.integers(0, top + 1, gen.ri(rng, 1, 8))
    a = rng.standard_normal(len(k))
    p = rng.uniform(0, 6.28, len(k))
    return lambda t: sum(ai * np.cos(2 * np.pi * ki * t / N + pi) for ai, ki, pi in zip(a, k, p))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [64, 65, 100, 255, 17, 300, 8, 9])
    fs = gen.logu(rng, 1e-3, 1e11)
    n = np.arange(N)
    D = rng.uniform(-6, 6)
    if kind == "fft":
        f = bandlimited(rng, N)
        x = f(n)
        keep = x.copy()
        y = m.call(fractional_delay_fft, x, D / fs, fs)
        m.close("exact delay", y, f(n - D), atol=1e-8, what="band-limited record of %d samples delayed by %.3f samples" % (N, D))
        m.equal("input kept", x, keep, "caller's record")
        m.close("energy", np.sum(y ** 2), np.sum(x ** 2), rtol=1e-8, atol=1e-9, what="energy after the delay")
        m.close("rate", m.call(fractional_delay_fft, x.tolist(), D / 7.0, 7.0), y, atol=1e-8, what="same delay in samples at another rate")
        m.close("zero delay", m.call(fractional_delay_fft, x, 0.0, fs), x, atol=1e-10, what="zero delay")
    elif kind == "fftint":
        x = rng.standard_normal(N)
        d = gen.ri(rng, -2 * N, 2 * N + 1)
        y = m.call(fractional_delay_fft, x, d / fs, fs)
        m.close("whole samples", y, np.roll(x, d), atol=1e-7, what="arbitrary record of %d samples delayed by %d samples" % (N, d))
        m.equal("whole samples", y.shape, x.shape, "length")
    elif kind == "comp":
        x = bandlimited(rng, N)(n) + 0.3
        d2 = rng.uniform(-3, 3)
        y = m.call(fractional_delay_fft, m.call(fractional_delay_fft, x, D / fs, fs), d2 / fs, fs)
        m.close("composition", y, m.call(fractional_delay_fft, x, (D + d2) / fs, fs), atol=1e-8, what="two delays in turn")
        z = rng.standard_normal(N)
        for fn in (fractional_delay_fft, fractional_delay_farrow):
            lin = m.call(fn, 2.5 * x - z, D / fs, fs)
            m.close("linear", lin, 2.5 * m.call(fn, x, D / fs, fs) - m.call(fn, z, D / fs, fs), atol=1e-8, what="superposition")
    elif kind == "poly":
        taps = gen.pick(rng, [1, 3, 5, 7, 9])
        N = gen.pick(rng, [64, 101])
        t = (np.arange(N) - N / 2) / N
        co = rng.standard_normal(taps)
        x = np.polyval(co, t)
        y = m.call(fractional_delay_farrow, x, D / fs, fs, n_taps=taps)
        m.equal("polynomial", y.shape, x.shape, "length")
        e = int(abs(D)) + taps + 2
        want = np.polyval(co, t - D / N) if taps > 1 else np.full(N, co[0])
        m.close("polynomial", y[e:-e], want[e:-e], atol=1e-8, what="polynomial of degree %d delayed by %.3f samples with %d taps" % (taps - 1, D, taps))
    elif kind == "farint":
        x = rng.standard_normal(N)
        d = gen.ri(rng, -N - 2, N + 3) if rng.random() < 0.5 else gen.ri(rng, -3, 4)
        taps = gen.pick(rng, [1, 3, 5, 7])
        keep = x.copy()
        y = m.call(fractional_delay_farrow, x, d / fs, fs, n_taps=taps)
        want = np.zeros(N)
        for i in range(N):
            if 0 <= i - d < N:
                want[i] = x[i - d]
        m.close("integer shift", y, want, atol=1e-6, what="delay by %d samples, %d taps, N=%d" % (d, taps, N))
        m.equal("input kept", x, keep, "caller's record")
        m.close("zero delay", m.call(fractional_delay_farrow, x, 0.0, fs, n_taps=taps), x, atol=1e-12, what="zero delay, filter")
    else:
        for t in (0, 2, 4, -1, -3):
            m.expect_raise("rejects", ValueError, fractional_delay_farrow, np.zeros(20), 0.1, 1.0, n_taps=t)
        m.expect_raise("rejects", ValueError, fractional_delay_farrow, np.zeros((4, 5)), 0.1, 1.0)
        m.expect_raise("rejects", ValueError, fractional_delay_fft, np.zeros((4, 5)), 0.1, 1.0)
    m.nontrivial()
    m.sample(kind=kind, N=N, delay_samples=float(D))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
