"""C26 INL/DNL from a ramp."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.aout import compute_inl_from_ramp, analyze_inl_from_ramp

PROPERTY = "C26"
RULE = "random code histograms (uniform, skewed, with missing codes) and simulated converters with known transition levels; every code range, endpoint rule, order and storage type; non-trivial = DNL not all zero"
REQUIRED_ORACLES = ["dnl", "inl", "missing codes", "known transitions", "order independence", "code offset", "summary", "endpoint rule", "plot", "rejects", "input kept", "layout"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}


def cases(rng, tier):
    kinds = ["hist", "hist", "phys", "hist", "plot", "reject"]
    for i in range(2160 if tier == "quick" else 12000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def ref(counts, first, rule):
    mean = sum(counts) / len(counts)
    dnl = np.array([v / mean - 1 for v in counts])
    raw = np.array([sum(dnl[:k]) for k in range(len(dnl) + 1)])
    n = len(raw)
    x = np.arange(n, dtype=float)
    if rule == "none":
        inl = raw
    elif rule.lower() in ("endpoint", "endpoints"):
        inl = raw - (raw[0] + (raw[-1] - raw[0]) * x / (n - 1))
    else:
        xm, ym = x.mean(), raw.mean()
        s = ((x - xm) * (raw - ym)).sum() / ((x - xm) ** 2).sum()
        inl = raw - ym - s * (x - xm)
    return dnl, raw, inl


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    nb = gen.ri(rng, 1 if kind == "hist" else 2, 9) if rng.random() < 0.9985 or kind != "hist" else gen.ri(rng, 10, 15)
    K = 2 ** nb
    if kind == "reject":
        x = rng.integers(0, K, 300)
        f = gen.pick(rng, [compute_inl_from_ramp, lambda *a, **k: analyze_inl_from_ramp(*a, create_plot=False, **k)])
        for args, kw in [(([],), {}), ((np.array([1.0, np.nan, 2]),), {}), ((np.array([1.0, np.inf, 2]),), {}), ((np.array([0.5, 1.0]),), {}), ((x + 0.04,), {}), ((x.astype(float) - 1e-3,), {}), ((x,), dict(num_bits=0)), ((x,), dict(num_bits=-2)), ((x,), dict(num_bits=2.5)),
                         ((x,), dict(num_bits=nb, endpoint="middle")), ((x,), dict(num_bits=nb, endpoint=3)), ((x,), dict(code_min=5, code_max=2)), ((x,), dict(code_min=0.5)), ((x,), dict(code_max=7.5)),
                         ((np.append(x, K),), dict(num_bits=nb)), ((np.append(x, -1),), dict(num_bits=nb)), ((np.array([0, K - 1] * 9),), dict(num_bits=nb)), ((x * 0 - 5,), {})]:
            m.expect_raise("rejects", ValueError, f, *args, **kw)
        m.expect_raise("rejects", ValueError, analyze_inl_from_ramp, x, num_bits=nb, input_type="voltage", create_plot=False)
        m.nontrivial()
        return
    rule = gen.pick(rng, ["endpoints", "endpoint", "fit", "none", "FIT", "Endpoints"])
    excl = bool(rng.random() < 0.7)
    first = gen.pick(rng, [0, 0, gen.ri(rng, -300, 300), gen.ri(rng, -10 ** 6, 10 ** 6), 2 ** 15 - gen.ri(rng, 1, K + 1)])
    if rng.random() < 0.1 and rule.lower() != "fit":
        first = gen.pick(rng, [-1, 1]) * (2 ** gen.ri(rng, 25, 31) - 1001)  # codes beyond what single precision can tell apart
    if kind == "phys":
        # a converter with known transition levels, driven by a dense uniform ramp beyond both ends
        w = np.maximum(rng.normal(1, rng.uniform(0.02, 0.4), K), 0.0)
        if rng.random() < 0.3:
            w[gen.ri(rng, 1, K - 1)] = 0
        T = np.cumsum(w[:-1])
        step = 0.01
        ramp = np.arange(-1.0 + step / 3, T[-1] + 2, step)
        codes = np.searchsorted(T, ramp, side="right")
        r = m.call(compute_inl_from_ramp, codes, num_bits=nb, endpoint="endpoints")
        lsb = (T[-1] - T[0]) / (K - 2) if K > 2 else None
        ww = np.diff(T) / lsb
        m.close("known transitions", r["dnl"], ww - 1, atol=1.2 * step / lsb * 1.1, what="DNL against true code widths (%d bits)" % nb)
        ideal = T[0] + lsb * np.arange(K - 1)
        m.close("known transitions", r["inl"], (T - ideal) / lsb, atol=2.5 * step / lsb, what="INL against true transition levels (%d bits)" % nb)
        m.equal("known transitions", np.asarray(r["transition_code"]), np.arange(1, K), "transition into code k is listed at k")
        m.nontrivial()
        return
    counts = rng.integers(0 if rng.random() < 0.5 else 1, gen.ri(rng, 3, 40), K)
    if rng.random() < 0.3:
        counts[gen.ri(rng, 1, max(K - 1, 2))] = 0
    if rng.random() < 0.4:
        counts[0] += gen.ri(rng, 0, 500)
        counts[-1] += gen.ri(rng, 0, 500)
    counts[1] += 1
    counts[-1] += 1
    counts[0] += 1
    base = np.repeat(np.arange(first, first + K), counts)
    keepo = base.copy()
    how = gen.pick(rng, ["bits", "max", "none"])
    kw = dict(endpoint=rule, exclude_endpoints=excl)
    if first or rng.random() < 0.3:
        kw["code_min"] = gen.pick(rng, [int, np.int64, np.int32])(first)
    if how == "bits":
        kw["num_bits"] = nb
    elif how == "max":
        kw["code_max"] = first + K - 1
    f = gen.pick(rng, [compute_inl_from_ramp, lambda *a, **k: analyze_inl_from_ramp(*a, create_plot=False, **k)])
    f.__name__ = "inl_from_ramp"
    r = m.call(f, base, **kw)
    cc = counts[1:-1] if excl and K > 2 else counts
    c0 = first + 1 if excl and K > 2 else first
    dnl, raw, inl = ref([int(v) for v in cc], c0, rule.lower())
    m.close("dnl", r["dnl"], dnl, atol=1e-10, what="DNL")
    m.equal("dnl", np.asarray(r["code"]), np.arange(c0, c0 + len(cc)), "codes")
    m.equal("dnl", np.asarray(r["counts"]), cc, "counts")
    m.close("dnl", r["ideal_count"], cc.mean(), rtol=1e-12, what="mean count")
    m.close("inl", r["raw_inl"], raw, atol=1e-9, what="accumulated DNL")
    m.equal("inl", np.asarray(r["transition_code"]), np.arange(c0, c0 + len(cc) + 1), "transition codes")
    m.close("endpoint rule", r["inl"], inl, atol=1e-8, what="INL with rule %s" % rule)
    m.equal("missing codes", np.asarray(r["missing_codes"]).tolist(), [c0 + i for i, v in enumerate(cc) if v == 0], "missing codes")
    m.close("summary", [r["dnl_min"], r["dnl_max"], r["dnl_pp"], r["inl_min"], r["inl_max"], r["inl_pp"]],
            [dnl.min(), dnl.max(), np.ptp(dnl), inl.min(), inl.max(), np.ptp(inl)], atol=1e-8, what="extremes")
    m.equal("summary", [r["code_min"], r["code_max"]], [first, first + K - 1], "code limits")
    sh = rng.permutation(base)
    q = m.call(f, sh, **kw)
    m.close("order independence", q["inl"], r["inl"], atol=1e-12, what="INL of the shuffled record")
    dt = gen.pick(rng, [np.int16, np.int32, float, np.float32] if abs(first) + K < 32000 else [np.int32, float, np.float32] if abs(first) < 2 ** 24 - 1000 else [np.int64, float])
    q = m.call(f, base.astype(dt), **kw)
    m.close("layout", q["dnl"], r["dnl"], atol=1e-12, what="DNL from %s codes" % np.dtype(dt))
    n2 = len(base) // 2 * 2
    q1 = m.call(f, np.sort(base)[:n2].reshape(2, -1), **dict(kw, code_max=first + K - 1))
    q2 = m.call(f, np.sort(base)[:n2].tolist(), **dict(kw, code_max=first + K - 1))
    m.close("layout", q1["dnl"], q2["dnl"], atol=1e-12, what="DNL from a matrix and from a list")
    d = gen.ri(rng, -50, 50)
    kk = dict(kw, code_min=first + d)
    if "code_max" in kk:
        kk["code_max"] += d
    q = m.call(f, base + d, **kk)
    m.close("code offset", q["inl"], r["inl"], atol=1e-9, what="INL with all codes shifted by %d" % d)
    m.equal("code offset", np.asarray(q["code"]), np.asarray(r["code"]) + d, "codes shifted")
    m.equal("input kept", base, keepo, "caller's codes")
    if kind == "plot":
        fig, axs = plt.subplots(2, 1)
        q = m.call(analyze_inl_from_ramp, base, axes=list(axs), create_plot=True, **kw)
        m.close("plot", q["inl"], r["inl"], atol=0, what="INL with a plot")
        ys = [np.asarray(ln.get_ydata(), float) for a in fig.axes for ln in a.get_lines()]
        m.check("plot", any(y.shape == dnl.shape and np.allclose(y, dnl, atol=1e-8) for y in ys), "no plotted curve equals the DNL")
        m.check("plot", any(y.shape == inl.shape and np.allclose(y, inl, atol=1e-8) for y in ys), "no plotted curve equals the INL")
        plt.close("all")
    m.nontrivial(np.ptp(dnl) > 0)
    m.sample(kind=kind, codes=K, first=first, rule=rule, exclude_ends=excl, inl_pp=r["inl_pp"])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
