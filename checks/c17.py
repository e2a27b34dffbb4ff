"""C17 ideal SAR weights and capacitor mismatch models."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.models import sar_ideal_weights, sar_apply_cap_mismatch, sar_apply_mismatch

PROPERTY = "C17"
RULE = "random bit counts, redundancy positions, weight sets, mismatch sigmas and unit counts; non-trivial = mismatch applied or redundant bit present"
REQUIRED_ORACLES = ["unity range", "binary ratios", "redundant bit", "cap mismatch law", "flat mismatch law", "independence", "zero sigma", "scale equivariance",
                    "reproducible", "input kept", "rejects", "unit count"]
MIN_NONTRIVIAL = {"quick": 40, "thorough": 400}


def cases(rng, tier):
    kinds = ["ideal", "cap", "flat", "scale", "units", "reject"]
    for i in range(1260 if tier == "quick" else 6300):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def draws(m, fn, w, sigma, n, seed, **kw):
    g = np.random.default_rng(seed)
    return np.array([m.call(fn, w, sigma, rng=g, **kw) for _ in range(n)])


def law(m, oracle, out, w, sig, n):
    z = (out / w - 1) / sig
    m.close(oracle, z.mean(0), np.zeros(len(w)), atol=6 / np.sqrt(n), what="mean relative error in sigmas")
    m.close(oracle, z.std(0), np.ones(len(w)), atol=6 / np.sqrt(2 * n), what="relative spread of each weight over its expected sigma")
    if len(w) > 1:
        cc = np.corrcoef(z.T)
        m.close("independence", cc[np.triu_indices(len(w), 1)], np.zeros(len(w) * (len(w) - 1) // 2), atol=7 / np.sqrt(n), what="correlation between weights' errors")
    m.close(oracle, np.mean(z ** 4), 3.0, atol=12 * np.sqrt(96.0 / z.size) / 3 + 0.3, what="kurtosis of the errors")


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    n = 800
    if kind == "ideal":
        B = gen.ri(rng, 1, 25)
        w = m.call(sar_ideal_weights, B)
        m.equal("binary ratios", w.shape, (B,), "number of weights")
        m.close("unity range", w.sum() + w[-1], 1.0, atol=1e-12, what="sum of weights plus one LSB")
        m.close("binary ratios", w, 0.5 ** np.arange(1, B + 1), rtol=1e-12, what="binary weights, MSB first")
        for r in range(B) if B < 8 else [0, B - 1, gen.ri(rng, 0, B)]:
            v = m.call(sar_ideal_weights, B, r)
            raw = np.insert(2.0 ** np.arange(B - 1, -1, -1), r + 1, 2.0 ** (B - 1 - r))
            m.close("redundant bit", v, raw / (raw.sum() + raw[-1]), rtol=1e-12, what="weights with bit %d repeated" % r)
            m.close("unity range", v.sum() + v[-1], 1.0, atol=1e-12, what="sum of redundant weights plus one LSB")
        m.nontrivial()
        return
    B = gen.ri(rng, 2, 9)
    w = np.sort(gen.logu(rng, 1e-3, 1e3) * rng.uniform(0.5, 1.5, B) * 2.0 ** rng.integers(0, 8, B))[::-1]
    if rng.random() < 0.5:
        w = rng.permutation(w)  # a split array lists its weights in any order
    sigma = 10 ** rng.uniform(-4, -1.3)
    seed = gen.seed_of(rng)
    keep = w.copy()
    if kind == "cap":
        out = draws(m, sar_apply_cap_mismatch, w, sigma, n, seed)
        law(m, "cap mismatch law", out, w, sigma / np.sqrt(w / w.min()), n)
        m.equal("reproducible", draws(m, sar_apply_cap_mismatch, w, sigma, 3, seed), out[:3], "same generator seed")
    elif kind == "units":
        u = rng.uniform(0.2, 500, B)
        out = draws(m, sar_apply_cap_mismatch, w, sigma, n, seed, cap_units=u)
        law(m, "cap mismatch law", out, w, sigma / np.sqrt(u), n)
        m.equal("unit count", m.call(sar_apply_cap_mismatch, w, sigma, rng=np.random.default_rng(seed), cap_units=w / w.min()),
                m.call(sar_apply_cap_mismatch, w, sigma, rng=np.random.default_rng(seed)), "explicit unit counts equal to the default")
    elif kind == "flat":
        out = draws(m, sar_apply_mismatch, w, sigma, n, seed)
        law(m, "flat mismatch law", out, w, np.full(B, sigma), n)
        m.equal("reproducible", draws(m, sar_apply_mismatch, w, sigma, 3, seed), out[:3], "same generator seed")
        a, b = m.call(sar_apply_mismatch, w, sigma), m.call(sar_apply_mismatch, w, sigma)
        m.check("reproducible", not np.array_equal(a, b), "successive draws without a generator are identical")
    elif kind == "scale":
        for fn in (sar_apply_cap_mismatch, sar_apply_mismatch):
            m.equal("zero sigma", m.call(fn, w, 0.0, rng=np.random.default_rng(seed)), w, "weights with zero sigma")
            a = m.call(fn, w, sigma, rng=np.random.default_rng(seed))
            m.close("scale equivariance", m.call(fn, w * 4.0, sigma, rng=np.random.default_rng(seed)), a * 4.0, rtol=1e-12, what="mismatch on scaled weights")
            m.close("scale equivariance", (m.call(fn, w, 2 * sigma, rng=np.random.default_rng(seed)) / w - 1), 2 * (a / w - 1), atol=1e-12, what="mismatch with doubled sigma")
            m.equal("reproducible", m.call(fn, list(w), sigma, rng=np.random.default_rng(seed)), a, "weights given as a list")
    else:
        bad = [(np.ones((2, 2)), 0.1, None), ([], 0.1, None), ([1, np.nan], 0.1, None), ([1, np.inf], 0.1, None), ([1, 0], 0.1, None), ([1, -1], 0.1, None),
               ([1, 2], -0.1, None), ([1, 2], np.nan, None), ([1, 2], np.inf, None), ([1, 2], 0.1, [1]), ([1, 2], 0.1, [1, 0]), ([1, 2], 0.1, [1, -3]),
               ([1, 2], 0.1, [1, np.nan]), ([1, 2], 0.1, [[1, 2]])]
        for ww, s, u in bad:
            m.expect_raise("rejects", ValueError, sar_apply_cap_mismatch, ww, s, cap_units=u)
    m.equal("input kept", w, keep, "caller's weights")
    m.nontrivial()
    m.sample(kind=kind, bits=B, sigma=sigma)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
