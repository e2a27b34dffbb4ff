"""C16 SAR conversion and reconstruction."""
import sys
import math
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.models import sar_convert, sar_reconstruct, sar_ideal_weights

PROPERTY = "C16"
RULE = ("random inputs (scalars, vectors, matrices; inside, on and beyond the range), weight sets (ideal, redundant, mismatched, arbitrary), ranges and noise; "
        "non-trivial = both bit values occur")
REQUIRED_ORACLES = ["codes", "shape", "quantisation error", "saturation", "monotone", "range equivariance", "reconstruction", "sampling noise",
                    "comparator noise", "noise independence", "reproducible", "rejects", "input kept"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    kinds = ["exact", "ideal", "arb", "shape", "range", "exact", "ideal", "noise", "comp", "indep", "reject"]
    for i in range(9900 if tier == "quick" else 49500):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def ref_convert(u, w):
    out = []
    dac = 0.0
    for wj in w:
        if u >= dac + wj:
            out.append(1)
            dac = dac + wj
        else:
            out.append(0)
    return out


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    if kind in ("exact", "shape"):
        # dyadic numbers: every sum and comparison is exact, so the codes are fully determined
        B = gen.ri(rng, 1, 13) if rng.random() < 0.9 else gen.ri(rng, 13, 33)
        res = 12 if B < 13 else gen.ri(rng, 12, 40)
        w = rng.integers(0 if rng.random() < 0.3 else 1, 2 ** (res - 2), B) / 2.0 ** res
        if rng.random() < 0.7:
            w = np.sort(w)[::-1]
        shape = gen.pick(rng, [(), (7,), (1,), (5, 9), (2, 3, 4), (0,), (40,)]) if rng.random() < 0.98 else gen.pick(rng, [(33000,), (70001,), (131072,), (3, 40000), (40000, 2), (300, 300)])
        v = rng.integers(-2 ** (res - 3), 2 ** res + 2 ** (res - 3), shape) / 2.0 ** res
        lo = float(rng.integers(-8, 8)) / 4
        span = float(2.0 ** rng.integers(-3, 4))
        if rng.random() < 0.3 and np.size(v):
            cum = np.concatenate([[0], np.cumsum(w)])
            v = np.full(shape, float(gen.pick(rng, list(cum))))  # exactly on a decision level
        vin = v * span + lo
        src = vin if rng.random() < 0.6 or shape == () else vin.tolist()
        keep = np.array(vin, copy=True)
        codes = m.call(sar_convert, src, w, (lo, lo + span))
        flat = np.atleast_1d(v).reshape(-1)
        if flat.size < 1000 or res > 12:
            want = np.array([ref_convert(u, w) for u in flat]).reshape((shape or (1,)) + (B,))
        else:  # few distinct values: convert each once
            lev, back = np.unique(flat, return_inverse=True)
            want = np.array([ref_convert(u, w) for u in lev])[back].reshape(shape + (B,))
        m.equal("shape", codes.shape, want.shape, "shape for input %s and %d bits" % (shape, B))
        m.equal("codes", np.asarray(codes).astype(int), want.astype(int), "bit decisions, %d bits" % B)
        m.check("shape", codes.dtype.kind in "iu", "codes have dtype %s" % codes.dtype)
        m.equal("input kept", np.asarray(vin), keep, "input voltages")
        rec = m.call(sar_reconstruct, codes, w, (lo, lo + span))
        m.close("reconstruction", rec, (want * w).sum(-1) * span + lo, atol=1e-12, what="reconstruction = range x sum of weights of set bits")
        for dt in (np.int8, bool, float, np.uint8, np.int64):
            m.close("reconstruction", m.call(sar_reconstruct, np.asarray(codes).astype(dt), w, (lo, lo + span)), rec, atol=1e-12, what="reconstruction from %s codes" % np.dtype(dt))
        if np.size(want):
            m.nontrivial(want.min() == 0 and want.max() == 1)
        m.sample(bits=B, shape=str(shape), range=[lo, lo + span])
    elif kind == "ideal":
        B = gen.ri(rng, 1, 15) if rng.random() < 0.9 else gen.ri(rng, 15, 21)
        red = gen.ri(rng, 0, B) if rng.random() < 0.5 else None
        w = m.call(sar_ideal_weights, B, red)
        lo = rng.uniform(-5, 5)
        span = gen.logu(rng, 1e-3, 1e3)
        lsb = w[-1] * span
        vin = np.sort(rng.uniform(lo, lo + span * (1 - 1e-9), gen.length(rng, [400], 0.01)))
        codes = m.call(sar_convert, vin, w, (lo, lo + span))
        rec = m.call(sar_reconstruct, codes, w, (lo, lo + span))
        e = vin - rec
        eps = 1e-9 * span
        m.check("quantisation error", np.all(e >= -eps) and np.all(e <= lsb + eps), lambda: "reconstruction error [%.4g, %.4g] LSB outside [0, 1]" % (e.min() / lsb, e.max() / lsb))
        m.check("monotone", np.all(np.diff(rec) >= -eps), "reconstructed value falls as the input rises")
        if red is None:
            k = np.floor((vin - lo) / lsb)
            frac = (vin - lo) / lsb - k
            sure = (frac > 1e-6) & (frac < 1 - 1e-6)
            val = np.asarray(codes).astype(int) @ (2 ** np.arange(B - 1, -1, -1))
            m.equal("codes", val[sure], np.clip(k, 0, 2 ** B - 1)[sure].astype(int), "binary code of the input")
        below = m.call(sar_convert, np.array([lo - span, lo - 1e-3 * span]), w, (lo, lo + span))
        above = m.call(sar_convert, np.array([lo + span, lo + 3 * span]), w, (lo, lo + span))
        m.check("saturation", np.all(below == 0), "inputs below the range do not give all zeros")
        m.check("saturation", np.all(above == 1), "inputs above the range do not give all ones")
        m.nontrivial(np.min(codes) == 0 and np.max(codes) == 1)
    elif kind == "arb":
        B = gen.ri(rng, 2, 12) if rng.random() < 0.8 else gen.ri(rng, 12, 25)
        w = rng.uniform(1.6, 2.2) ** np.arange(B - 1, -1, -1.0)
        w = w * (1 + 0.05 * rng.standard_normal(B))
        w = np.abs(w) / (np.abs(w).sum() * rng.uniform(0.8, 1.2))
        vin = rng.uniform(-0.2, 1.2, 200)
        codes = np.asarray(m.call(sar_convert, vin, w)).astype(int)
        dac = np.concatenate([np.zeros((200, 1)), np.cumsum(codes * w, axis=1)[:, :-1]], axis=1)
        margin = vin[:, None] - dac - w
        sure = np.abs(margin) > 1e-12
        m.equal("codes", codes[sure], (margin > 0)[sure].astype(int), "each bit compares the input with the trial level")
        m.equal("codes", np.asarray(m.call(sar_convert, vin, list(w), [0, 1])).astype(int), codes, "codes with list arguments and the default range")
        m.nontrivial()
    elif kind == "range":
        B = gen.ri(rng, 3, 12)
        w = np.sort(rng.uniform(0.01, 0.5, B))[::-1]
        u = rng.uniform(-0.1, 1.1, 300)
        base = np.asarray(m.call(sar_convert, u, w)).astype(int)
        lo = float(rng.integers(-4, 5))
        span = float(2.0 ** rng.integers(-4, 6))
        codes = np.asarray(m.call(sar_convert, u * span, w, (0.0, span))).astype(int)
        m.equal("range equivariance", codes, base, "codes after scaling input and range by %g" % span)
        # input, range and both noises in another unit, same random numbers: the same codes
        unit = float(2.0 ** rng.integers(-40, 40))
        sd, sn, cn = gen.seed_of(rng), 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(-4, -1)
        for a, b in ((sn, 0.0), (0.0, cn), (sn, cn)):
            k1 = m.call(sar_convert, u, w, (0.0, 1.0), a, b, np.random.default_rng(sd))
            k2 = m.call(sar_convert, u * unit, w, (0.0, unit), a * unit, b * unit, np.random.default_rng(sd))
            m.equal("range equivariance", np.asarray(k2), np.asarray(k1), "codes with noise after a change of units by %g" % unit)
            if max(a, b) > 0.03:
                m.check("range equivariance", not np.array_equal(np.asarray(k2).astype(int), base), lambda: "noise of %.2g/%.2g of the range changes no code" % (a, b))
        r1 = m.call(sar_reconstruct, base, w, (lo, lo + span))
        m.close("range equivariance", r1, m.call(sar_reconstruct, base, w) * span + lo, atol=1e-9 * span + 1e-12, what="reconstruction in another range")
        m.nontrivial()
    elif kind == "noise":
        B = 14
        w = m.call(sar_ideal_weights, B)
        lo = rng.uniform(-2, 2)
        span = gen.logu(rng, 0.1, 50)
        s = span * 10 ** rng.uniform(-2.5, -1.3)
        n = 4000
        v = lo + span * rng.uniform(0.35, 0.65)
        sd = gen.seed_of(rng)
        codes = m.call(sar_convert, np.full(n, v), w, (lo, lo + span), sampling_noise_rms=s, rng=np.random.default_rng(sd))
        rec = m.call(sar_reconstruct, codes, w, (lo, lo + span))
        m.close("sampling noise", np.std(rec), s, rtol=6 / np.sqrt(2 * n) + 0.01, what="rms of the converted noise in volts (range %.3g)" % span)
        m.close("sampling noise", np.mean(rec), v, atol=6 * s / np.sqrt(n) + span * w[-1], what="mean under sampling noise")
        z = (rec - rec.mean()) / np.std(rec)
        m.close("sampling noise", np.mean(z ** 4), 3.0, atol=0.8, what="kurtosis of the sampled noise")
        m.close("sampling noise", np.mean(z[1:] * z[:-1]), 0.0, atol=7 / np.sqrt(n), what="correlation between successive noise samples")
        again = m.call(sar_convert, np.full(n, v), w, (lo, lo + span), sampling_noise_rms=s, rng=np.random.default_rng(sd))
        m.equal("reproducible", again, codes, "codes with the same generator seed")
        other = m.call(sar_convert, np.full(n, v), w, (lo, lo + span), sampling_noise_rms=s)
        m.check("reproducible", np.std(m.call(sar_reconstruct, other, w, (lo, lo + span))) > 0.8 * s, "no noise without an explicit generator")
        q = [np.asarray(m.call(sar_convert, np.full(5, v), w, (lo, lo + span), rng=np.random.default_rng(k))) for k in (1, 2)]
        m.equal("reproducible", q[0], q[1], "noise-free codes with different generators")
        m.nontrivial()
    elif kind == "comp":
        lo = rng.uniform(-2, 2)
        span = gen.logu(rng, 0.1, 50)
        s = span * 10 ** rng.uniform(-2.5, -1)
        w = [0.5]
        n = 4000
        d = rng.uniform(-2, 2)
        codes = m.call(sar_convert, np.full(n, lo + 0.5 * span + d * s), w, (lo, lo + span), comparator_noise_rms=s, rng=np.random.default_rng(gen.seed_of(rng)))
        p = 0.5 * math.erfc(-d / math.sqrt(2))
        m.close("comparator noise", np.mean(np.asarray(codes).astype(float)), p, atol=6 * np.sqrt(p * (1 - p) / n) + 1e-3, what="decision probability %.2f sigma from the threshold, range %.3g" % (d, span))
        m.nontrivial()
    elif kind == "indep":
        # second comparison sits on the same threshold: its outcome must be a fresh draw
        n = 4000
        codes = np.asarray(m.call(sar_convert, np.full(n, 0.5), [0.5, 1e-12], comparator_noise_rms=0.05, rng=np.random.default_rng(gen.seed_of(rng)))).astype(int)
        up = codes[codes[:, 0] == 1, 1]
        m.close("noise independence", up.mean(), 0.5, atol=6 * 0.5 / np.sqrt(max(len(up), 1)), what="second decision given the first")
        a = codes[:, 0] - codes[:, 0].mean()
        m.close("noise independence", np.mean(a[1:] * a[:-1]), 0.0, atol=6 * 0.25 / np.sqrt(n), what="covariance of successive samples' decisions")
        # every sample of a batch of records has its own draws
        for kw in (dict(comparator_noise_rms=0.05), dict(sampling_noise_rms=0.05)):
            rows = np.asarray(m.call(sar_convert, np.full((3, n), 0.5), [0.5], rng=np.random.default_rng(gen.seed_of(rng)), **kw))[..., 0].astype(float) - 0.5
            for i, j in ((0, 1), (0, 2), (1, 2)):
                m.close("noise independence", np.mean(rows[i] * rows[j]), 0.0, atol=6 * 0.25 / np.sqrt(n), what="covariance between records %d and %d (%s)" % (i, j, list(kw)[0]))
        # sampling noise is drawn once per sample: both comparisons see the same value
        codes = np.asarray(m.call(sar_convert, np.full(n, 0.5), [0.5, 1e-12], sampling_noise_rms=0.05, rng=np.random.default_rng(gen.seed_of(rng)))).astype(int)
        up = codes[codes[:, 0] == 1, 1]
        m.check("noise independence", up.mean() > 0.999, lambda: "sampled noise changes between bits: second decision agrees only %.3f" % up.mean())
        m.nontrivial()
    else:
        w = [0.5, 0.25]
        for bad in ((0, 0), (1, 0), (0,), (0, 1, 2), (0, float("nan")), (float("-inf"), 1), (0, float("inf"))):
            m.expect_raise("rejects", ValueError, sar_convert, np.array([0.3]), w, bad)
            m.expect_raise("rejects", ValueError, sar_reconstruct, np.array([[1, 0]]), w, bad)
        m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
