"""C19 interleaving spur prediction and foreground calibration."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.timeinterleave import extract_mismatch_sine, predict_spurs, calibrate_foreground

PROPERTY = "C19"
RULE = ("random channel counts, mismatch and tones (single tone or several tones below the channel Nyquist frequency); predicted spurs compared with the spectrum of a "
        "synthesised record and calibrated records with the mismatch-free one; non-trivial = two or more channels with mismatch")
REQUIRED_ORACLES = ["spur amplitude", "spur frequency", "spur list", "spur decibels", "calibrated record", "calibrated multitone", "interpolating filter", "identity", "rejects", "end to end"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    kinds = ["spurs", "cal", "multi", "spurs", "farrow", "identity", "reject"]
    for i in range(9800 if tier == "quick" else 49000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def mism(rng, M, fs, A):
    g = 1 + rng.uniform(-0.05, 0.05, M)
    off = A * rng.uniform(-0.1, 0.1, M)
    sk = rng.uniform(-1, 1, M) * 0.1 / fs * gen.pick(rng, [1, 1, gen.logu(rng, 1e-4, 1)])
    return g, off, sk


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    M = gen.ri(rng, 2, 13) if rng.random() < 0.95 else gen.ri(rng, 13, 40)
    fs = gen.logu(rng, 1.0, 1e11)
    A = gen.logu(rng, 1e-2, 1e2)
    K = gen.length(rng, [120, 128, 255], big=[4001, 8192, 16384])
    N = M * K
    n = np.arange(N)
    g, off, sk = mism(rng, M, fs, A)
    ph = rng.uniform(0, 6.28)
    if kind == "reject":
        p = {"gain": g, "offset": off, "skew": sk}
        m.expect_raise("rejects", ValueError, predict_spurs, p, fs)
        m.expect_raise("rejects", ValueError, predict_spurs, dict(p, fin=0.1 * fs, offset=off[:-1]), fs)
        m.expect_raise("rejects", ValueError, predict_spurs, dict(p, fin=0.1 * fs, skew=np.append(sk, 0)), fs)
        x = rng.standard_normal(N)
        m.expect_raise("rejects", ValueError, calibrate_foreground, x, M, dict(p, gain=g[:-1]), fs)
        m.expect_raise("rejects", ValueError, calibrate_foreground, x, M, dict(p, skew=np.append(sk, 0)), fs)
        m.expect_raise("rejects", ValueError, calibrate_foreground, x, M, p, fs, skew_method="spline")
        m.expect_raise("rejects", ValueError, calibrate_foreground, x[:-1], M, p, fs)
        m.expect_raise("rejects", ValueError, calibrate_foreground, x, M, p, fs, skew_method="farrow", n_taps=4)
        m.nontrivial()
        return
    if kind == "identity":
        x = rng.standard_normal(N)
        y = m.call(calibrate_foreground, x, M, {"gain": np.ones(M), "offset": np.zeros(M), "skew": np.zeros(M)}, fs)
        m.close("identity", y, x, atol=1e-12, what="record with no mismatch")
        keep = x.copy()
        y = m.call(calibrate_foreground, x, M, {"gain": g, "offset": off, "skew": np.zeros(M)}, fs)
        m.close("identity", y, (x - off[n % M]) / g[n % M], rtol=1e-9, atol=1e-9, what="offset and gain removal per channel")
        m.equal("identity", x, keep, "caller's record")
        m.nontrivial()
        return
    if kind == "spurs":
        u = 10.0 ** gen.ri(rng, -10, 4)
        A, off = A * u, off * u
        # choose a tone whose images, offset spurs and mirror images all fall on different bins
        for _ in range(200):
            b = gen.ri(rng, 5, (N + 1) // 2 - 1)
            where = [gen.fold(b + k * K, N) for k in range(M)]
            offb = sorted({gen.fold(k * K, N) for k in range(1, M)})
            if len(set(where)) == M and not set(where) & set(offb) and 0 not in where and N / 2 not in where:
                break
        else:
            m.skip("no clean bin")
            return
        fin = b * fs / N
        gg = g / g.mean() if rng.random() < 0.5 else g * rng.uniform(0.5, 2)
        x = A * gg[n % M] * np.cos(2 * np.pi * fin * (n / fs + sk[n % M]) + ph) + off[n % M]
        X = np.abs(np.fft.rfft(x)) / N * 2
        if N % 2 == 0:
            X[-1] /= 2
        X[0] /= 2
        full = A * rng.uniform(1, 3)
        given = rng.random() < 0.5
        params = {"gain": gg, "offset": off, "skew": sk, "A": A, "fin": (0.123 * fs if given else fin)}
        sp = m.call(predict_spurs, params, fs, fin if given else None, full)
        m.equal("spur list", sorted((s["kind"], s["k"]) for s in sp), sorted([("offset", k) for k in range(1, M)] + [("gain_skew", k) for k in range(1, M)]), "one spur of each kind per index")
        fr = [s["freq_hz"] for s in sp]
        m.check("spur list", all(a <= b_ + 1e-9 * fs for a, b_ in zip(fr, fr[1:])), "spurs are not sorted by frequency")
        acc = {}
        fund = A * gg.mean()
        for s in sp:
            want = gen.fold(s["k"] * K, N) if s["kind"] == "offset" else gen.fold(b + s["k"] * K, N)
            m.close("spur frequency", s["freq_hz"] * N / fs, want, atol=1e-6, what="bin of %s spur %d of %d channels" % (s["kind"], s["k"], M))
            if s["kind"] == "gain_skew":
                m.close("spur amplitude", s["amp"], X[want], rtol=1e-6, atol=1e-9 * A, what="image spur %d measured at bin %d" % (s["k"], want))
            else:
                acc[want] = acc.get(want, 0.0) + s["amp"]
            if s["amp"] > 1e-12 * A:
                m.close("spur decibels", [s["dbfs"], s["dbc"]], [20 * np.log10(s["amp"] / full), 20 * np.log10(s["amp"] / fund)], atol=1e-6, what="levels of spur %d in dBFS and dBc" % s["k"])
        for wb, a in acc.items():
            m.close("spur amplitude", a, X[wb], rtol=1e-6, atol=1e-9 * A, what="offset spur measured at bin %d (both image indices together)" % wb)
        m.nontrivial()
        m.sample(channels=M, N=N, bin=b, largest_spur_dbc=float(max(s["dbc"] for s in sp)))
        return
    half = (K - 1) // 2
    still = 2 * np.pi * 1e-18 * fs / 2  # skews under an attosecond need not be corrected
    if kind == "cal":
        b = gen.ri(rng, 3, half - 1)
        fin = b * fs / N
        noise = A * 1e-7
        x = A * g[n % M] * np.cos(2 * np.pi * fin * (n / fs + sk[n % M]) + ph) + off[n % M]
        p = m.call(extract_mismatch_sine, x, M, fs, fin)
        y = m.call(calibrate_foreground, x, M, p, fs)
        want = A * g.mean() * np.cos(2 * np.pi * fin * (n / fs + sk.mean()) + ph)
        m.close("calibrated record", y, want, atol=(1e-7 + still) * A, what="record calibrated with its own mismatch (M=%d, bin %d)" % (M, b))
        q = m.call(extract_mismatch_sine, y, M, fs, fin)
        m.close("end to end", q["gain"], np.ones(M), atol=1e-6, what="gain left after calibration")
        m.close("end to end", np.asarray(q["skew"]) * fin, np.zeros(M), atol=1e-6, what="skew left after calibration")
        m.close("end to end", q["offset"], np.zeros(M), atol=1e-6 * A, what="offset left after calibration")
    elif kind == "multi":
        bins = rng.choice(np.arange(2, half), size=gen.ri(rng, 2, 6), replace=False)
        amps = A * rng.uniform(0.1, 1, len(bins))
        phs = rng.uniform(0, 6.28, len(bins))
        sk0 = sk - sk.mean()
        t = n / fs + sk0[n % M]
        x = sum(a * g[n % M] * np.cos(2 * np.pi * b * fs / N * t + q) for a, b, q in zip(amps, bins, phs)) + off[n % M]
        y = m.call(calibrate_foreground, x, M, {"gain": g, "offset": off, "skew": sk0}, fs, skew_method="fft")
        want = sum(a * np.cos(2 * np.pi * b * n / N + q) for a, b, q in zip(amps, bins, phs))
        m.close("calibrated multitone", y, want, atol=(1e-7 + 5 * still) * A, what="%d-tone record calibrated with known mismatch" % len(bins))
    else:
        b = gen.ri(rng, 2, max(3, K // 12))
        fin = b * fs / N
        taps = gen.pick(rng, [5, 7, 9, 11])
        sk0 = (sk - sk.mean())
        x = A * g[n % M] * np.cos(2 * np.pi * fin * (n / fs + sk0[n % M]) + ph) + off[n % M]
        y = m.call(calibrate_foreground, x, M, {"gain": g, "offset": off, "skew": sk0}, fs, skew_method="farrow", n_taps=taps)
        want = A * np.cos(2 * np.pi * fin * n / fs + ph)
        e = taps * M
        d = np.max(np.abs(sk0)) * fs / M  # in channel samples
        wq = 2 * np.pi * b / K
        # Lagrange remainder: |f^(n)| / n! * prod |p - j|
        P = taps // 2
        rem = np.prod([abs(P + d - j) for j in range(taps)]) * wq ** taps / np.prod(np.arange(1, taps + 1, dtype=float))
        m.close("interpolating filter", y[e:-e], want[e:-e], atol=A * (1.5 * rem + still + 1e-9), what="record calibrated with the %d-tap filter away from the ends (M=%d, bin %d of %d)" % (taps, M, b, K))
        m.equal("interpolating filter", len(y), N, "length of the calibrated record")
    m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
