"""C18 time-interleaved records: channel split and mismatch extraction."""
import sys
import math
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.timeinterleave import deinterleave, interleave, extract_mismatch_sine

PROPERTY = "C18"
RULE = ("random channel counts 1-16, lengths, rates and tone bins over the whole Nyquist range, random offset/gain/skew per channel plus small noise; "
        "non-trivial = two or more channels with different mismatch")
REQUIRED_ORACLES = ["channel samples", "round trip", "offset", "gain", "skew", "amplitude", "frequency", "normalised", "rotation", "units", "rejects"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    kinds = ["split", "known", "known", "auto", "rotate", "known", "reject"]
    for i in range(9800 if tier == "quick" else 49000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    M = gen.ri(rng, 1, 17) if rng.random() < 0.97 or c["kind"] == "reject" else gen.ri(rng, 17, 70)
    if kind == "split":
        K = gen.ri(rng, 1, 60) if rng.random() < 0.97 else gen.ri(rng, 3000, 30000)
        dt = gen.pick(rng, [float, np.int16, np.int8, complex, bool, np.float32])
        x = (rng.standard_normal(M * K) * 50).astype(dt)
        keep = x.copy()
        ch = m.call(deinterleave, x, M)
        m.equal("channel samples", ch.shape, (M, K), "shape for %d channels" % M)
        for k in range(M):
            m.equal("channel samples", np.asarray(ch[k]), x[k::M], "samples of channel %d of %d" % (k, M))
        m.equal("round trip", m.call(interleave, ch), x, "interleave after deinterleave")
        m.equal("round trip", m.call(deinterleave, m.call(interleave, ch), M), np.asarray(ch), "deinterleave after interleave")
        m.equal("round trip", m.call(interleave, m.call(deinterleave, x.tolist(), M)), np.asarray(x.tolist()), "round trip of a list")
        m.equal("round trip", x, keep, "caller's record")
        m.nontrivial(M > 1)
        return
    if kind == "reject":
        x = np.zeros(12)
        for bad in (5, 7, 0, -3, 24):
            m.expect_raise("rejects", ValueError, deinterleave, x, bad)
            m.expect_raise("rejects", ValueError, extract_mismatch_sine, x, bad, 1.0, 0.1)
        m.expect_raise("rejects", ValueError, deinterleave, np.zeros((4, 3)), 2)
        m.expect_raise("rejects", ValueError, interleave, np.zeros(6))
        m.expect_raise("rejects", ValueError, interleave, np.zeros((2, 3, 4)))
        m.expect_raise("rejects", ValueError, extract_mismatch_sine, np.zeros((2, 6)), 2, 1.0, 0.1)
        m.nontrivial()
        return
    K = gen.length(rng, [64, 101, 256, 500], big=[5000, 8192, 20001])
    N = M * K
    while True:
        b = gen.ri(rng, max(3, N // 200), (N + 1) // 2 - 1)
        if (2 * b) % K and b % K:
            break
    fs = gen.logu(rng, 1.0, 1e10)
    fin = b * fs / N
    A = gen.logu(rng, 1e-3, 1e3)
    g = 1 + rng.uniform(-0.1, 0.1, M)
    off = A * rng.uniform(-0.2, 0.2, M)
    sk = rng.uniform(-1, 1, M) * min(0.2 / fs, 0.2 / fin)
    noise = A * 10 ** rng.uniform(-6, -3)
    if kind == "auto":
        g = 1 + rng.uniform(-0.01, 0.01, M)
        off = A * rng.uniform(-0.003, 0.003, M)
        sk = rng.uniform(-1, 1, M) * 0.004 / fs
        noise = A * 1e-5
    ph = rng.uniform(-np.pi, np.pi)
    n = np.arange(N)
    x = A * g[n % M] * np.cos(2 * np.pi * fin * (n / fs + sk[n % M]) + ph) + off[n % M] + noise * rng.standard_normal(N)
    s = 7 * noise * np.sqrt(2.0 / K)
    if kind == "auto":
        fo = (gen.ri(rng, N // 10, N // 2 - N // 10) + rng.uniform(-0.45, 0.45)) * fs / N
        xo = A * np.cos(2 * np.pi * fo * n / fs + ph) + A * 1e-4 * rng.standard_normal(N)
        m.close("frequency", m.call(extract_mismatch_sine, xo, M, fs)["fin"] * N / fs, fo * N / fs, atol=0.05, what="estimated frequency, in bins, of a tone between bins (M=%d, N=%d)" % (M, N))
        # the coarse one-step frequency estimate carries the error of the mismatch spurs
        p = m.call(extract_mismatch_sine, x, M, fs)
        m.close("frequency", p["fin"], fin, atol=0.02 * fs / N, what="estimated tone frequency (M=%d, bin %d of %d)" % (M, b, N))
        df = abs(p["fin"] - fin) / fs * N
        s = s + A * df * 4
        pf = m.call(extract_mismatch_sine, x, M, fs, p["fin"])
        m.close("frequency", pf["skew"], p["skew"], rtol=1e-9, atol=1e-15 / fs, what="skew with the estimated frequency passed back")
    else:
        p = m.call(extract_mismatch_sine, x, M, fs, fin)
        m.equal("frequency", float(p["fin"]), float(fin), "frequency used")
    m.close("offset", p["offset"], off, atol=s + 1e-12 * A, what="offset per channel (M=%d)" % M)
    m.close("amplitude", p["A"], A * g.mean(), atol=s + 1e-12 * A, what="mean amplitude")
    m.close("gain", p["gain"], g / g.mean(), atol=2 * s / A + 1e-11, what="relative gain per channel (M=%d)" % M)
    if kind != "auto":
        m.close("skew", p["skew"], sk - sk.mean(), atol=(3 * s / A + 1e-10) / (2 * np.pi * fin), what="skew per channel in seconds (M=%d, fin/fs=%.3f)" % (M, fin / fs))
    m.close("normalised", [np.mean(p["gain"]), np.mean(p["skew"]) * 2 * np.pi * fin], [1.0, 0.0], atol=1e-9, what="mean gain and mean skew")
    if kind == "auto":
        m.nontrivial(M > 1)
        return
    wrapped = (np.asarray(p["phases"]) - (2 * np.pi * fin * sk + ph) + np.pi) % (2 * np.pi) - np.pi
    m.close("skew", wrapped, np.zeros(M), atol=3 * s / A + 1e-9, what="fitted phase per channel")
    if kind == "rotate":
        r = gen.ri(rng, 1, M + 1)
        q = m.call(extract_mismatch_sine, np.roll(x, -r), M, fs, fin)
        for k in ("offset", "gain"):
            m.close("rotation", q[k], np.roll(p[k], -r), atol=1e-9 * (A if k == "offset" else 1), what="%s after starting %d samples later" % (k, r))
        m.close("rotation", np.asarray(q["skew"]) * 2 * np.pi * fin, np.roll(p["skew"], -r) * 2 * np.pi * fin, atol=1e-8, what="skew phase after starting later")
        c1 = 2.0 ** gen.ri(rng, -6, 7)
        q = m.call(extract_mismatch_sine, x * c1, M, fs * 8, fin * 8)
        m.close("units", q["offset"], np.asarray(p["offset"]) * c1, rtol=1e-9, atol=1e-12 * A * c1, what="offset in scaled units")
        m.close("units", q["gain"], p["gain"], rtol=1e-9, what="gain in scaled units")
        m.close("units", np.asarray(q["skew"]) * 8, p["skew"], rtol=1e-7, atol=1e-9 / fin, what="skew at eight times the rate")
    m.nontrivial(M > 1)
    m.sample(channels=M, N=N, bin=b, skew_error_rad=float(np.max(np.abs(p["skew"] - (sk - sk.mean()))) * 2 * np.pi * fin))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
