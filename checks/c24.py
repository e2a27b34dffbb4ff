"""C24 noise-transfer-function suppression."""
import sys
import _boot  # noqa: F401
import numpy as np
from scipy import signal
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.oversampling import ntf_analyzer, ntfperf

PROPERTY = "C24"
RULE = "random stable transfer functions (FIR differences, zero/pole pairs), any band; non-trivial = response not flat"
REQUIRED_ORACLES = ["in-band power", "flat", "known order", "form", "wrapper", "additive bands", "gain", "plot independence"]
MIN_NONTRIVIAL = {"quick": 60, "thorough": 600}


def cases(rng, tier):
    for i in range(480 if tier == "quick" else 2400):
        yield {"seed": gen.seed_of(rng), "kind": ["rand", "flat", "order", "add", "plot"][i % 5]}


def ref(num, den, lo, hi):
    f = np.linspace(lo, hi, 40001)
    z = np.exp(2j * np.pi * f)
    H = np.abs(np.polyval(num, z) / np.polyval(den, z)) ** 2
    return -10 * np.log10(2 * np.trapezoid(H, f))


def rand_ntf(rng):
    k = gen.ri(rng, 1, 5)
    z = []
    p = []
    for _ in range(k):
        a = rng.uniform(0, 0.5)
        z += [np.exp(2j * np.pi * a), np.exp(-2j * np.pi * a)]
        r = rng.uniform(0, 0.8)
        b = rng.uniform(0, 0.5)
        p += [r * np.exp(2j * np.pi * b), r * np.exp(-2j * np.pi * b)]
    return np.real(np.poly(z)), np.real(np.poly(p))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    lo = 0.0 if rng.random() < 0.5 else rng.uniform(0, 0.3)
    hi = min(0.5, lo + rng.uniform(0.03, 0.3)) if rng.random() < 0.8 else 0.5
    step = 0.5 / 65535
    if kind == "flat":
        g = gen.logu(rng, 0.01, 100)
        v = m.call(ntf_analyzer, ([g], [1.0]), lo, hi)
        m.close("flat", v, -10 * np.log10(2 * (hi - lo)) - 20 * np.log10(g), atol=10 * step / (hi - lo) * 4.4, what="flat response over [%.3f, %.3f]" % (lo, hi))
    elif kind == "order":
        L = gen.ri(rng, 1, 5)
        num = np.poly(np.ones(L))
        osr = gen.ri(rng, 4, 65)
        v = m.call(ntf_analyzer, (num, [1.0]), 0, 0.5 / osr)
        # (2*sin(pi f))^(2L) integrated with the small-angle form as a coarse law and numerically as the exact one
        m.close("known order", v, ref(num, [1.0], 0, 0.5 / osr), atol=0.05 + 40.0 * osr * (2 * L + 1) / 65535, what="difference of order %d at ratio %d" % (L, osr))
        v2 = m.call(ntf_analyzer, (num, [1.0]), 0, 0.25 / osr)
        m.close("known order", v2 - v, 3.01 * (2 * L + 1), atol=1.2 + 80.0 * osr * (2 * L + 1) / 65535, what="improvement per octave at order %d" % L)
    elif kind in ("rand", "plot"):
        num, den = rand_ntf(rng)
        v = m.call(ntf_analyzer, (num, den), lo, hi)
        m.close("in-band power", v, ref(num, den, lo, hi), atol=0.02, what="suppression over [%.3f, %.3f]" % (lo, hi))
        tf = signal.TransferFunction(num, den, dt=1)
        m.close("form", m.call(ntf_analyzer, tf, lo, hi), v, atol=1e-9, what="transfer-function object")
        m.close("form", m.call(ntf_analyzer, (list(num), list(den)), lo, hi, 0), v, atol=1e-9, what="coefficient lists")
        m.close("wrapper", m.call(ntfperf, (num, den), lo, hi), v, atol=0, what="compatibility wrapper")
        g = gen.logu(rng, 0.1, 10)
        m.close("gain", m.call(ntf_analyzer, (num * g, den), lo, hi), v - 20 * np.log10(g), atol=1e-8, what="scaled transfer function")
        if kind == "plot":
            m.close("plot independence", m.call(ntfperf, (num, den), lo, hi, True), v, atol=0, what="value with a plot")
            plt.close("all")
    else:
        num, den = rand_ntf(rng)
        mid = rng.uniform(0.1, 0.4)
        a, b, t = (10 ** (-m.call(ntf_analyzer, (num, den), u, w_) / 10) for u, w_ in ((0, mid), (mid, 0.5), (0, 0.5)))
        m.close("additive bands", a + b, t, rtol=2e-3, what="noise of two adjoining bands")
    m.nontrivial(kind != "flat")
    m.sample(kind=kind, band=[float(lo), float(hi)])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
