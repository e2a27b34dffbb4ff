"""C12 capacitor-array weights equal a nodal circuit solution."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.fundamentals import convert_cap_to_weight
from adctoolbox.common import convert_cap_to_weight as top

PROPERTY = "C12"
RULE = "random bit, bridge and parasitic capacitor arrays of 1-16 bits; non-trivial = at least one internal bridge or parasitic"
REQUIRED_ORACLES = ["weights", "total capacitance", "plain array", "length mismatch", "scale invariance"]
MIN_NONTRIVIAL = {"quick": 200, "thorough": 3000}


def cases(rng, tier):
    for i in range(12000 if tier == "quick" else 60000):
        yield {"seed": gen.seed_of(rng)}


def nodal(cd, cb, cp):
    """Charge conservation: solve the capacitor network for the output step per unit step on each bit."""
    n = len(cd)
    node = []
    k = 0
    for i in range(n):
        node.append(k)
        if cb[i] > 0 and i < n - 1:
            k += 1
    nn = k + 1
    extra = cb[-1] > 0
    if extra:
        nn += 1
    C = np.zeros((nn, nn))
    D = np.zeros((nn, n))
    for i in range(n):
        a = node[i]
        C[a, a] += cd[i] + cp[i]
        D[a, i] += cd[i]
        b = None
        if cb[i] > 0:
            b = node[i + 1] if i < n - 1 else nn - 1
            C[a, a] += cb[i]
            C[b, b] += cb[i]
            C[a, b] -= cb[i]
            C[b, a] -= cb[i]
    V = np.linalg.solve(C, D)
    out = nn - 1
    w = V[out]
    e = np.zeros(nn)
    e[out] = 1.0
    ctot = 1.0 / np.linalg.solve(C, e)[out]  # volts per unit charge injected at the output
    return w, ctot


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    n = gen.ri(rng, 1, 17)
    unit = gen.logu(rng, 1e-16, 1e2)
    mode = gen.ri(rng, 0, 3)
    cd = 2.0 ** np.arange(n) if mode == 0 else np.exp(rng.uniform(-1, 4, n))
    if mode == 2 and n > 2:
        cd[gen.ri(rng, 1, n)] = 0.0
    cb = np.where(rng.random(n) < 0.3, np.exp(rng.uniform(-1, 3, n)), 0.0)
    if rng.random() < 0.2:
        cb *= np.exp(rng.uniform(0, 10, n))  # bridges that are almost shorts
    cp = np.where(rng.random(n) < 0.6, np.exp(rng.uniform(-4, 1, n)), 0.0)
    cd, cb, cp = cd * unit, cb * unit, cp * unit
    w, ct = m.call(convert_cap_to_weight, cd, cb, cp)
    rw, rct = nodal(cd / unit, cb / unit, cp / unit)
    m.close("weights", w, rw, rtol=1e-8, atol=1e-12, what="bit weights of a %d-bit array" % n)
    m.close("total capacitance", ct, rct * unit, rtol=1e-8, what="capacitance at the output")
    g = gen.logu(rng, 1e-3, 1e3)
    w2, ct2 = m.call(top, list(cd * g), list(cb * g), list(cp * g))
    m.close("scale invariance", w2, w, rtol=1e-9, atol=1e-14, what="weights after scaling every capacitor")
    m.close("scale invariance", ct2, ct * g, rtol=1e-9, what="total capacitance after scaling")
    z = np.zeros(n)
    w3, ct3 = m.call(convert_cap_to_weight, cd, z, z)
    m.close("plain array", w3, cd / cd.sum(), rtol=1e-9, what="weights of a plain array")
    m.close("plain array", ct3, cd.sum(), rtol=1e-9, what="capacitance of a plain array")
    if n > 2:
        # unpopulated positions below the first capacitor carry no weight and disturb nothing
        k = gen.ri(rng, 1, n)
        pad = np.zeros(k)
        w4, ct4 = m.call(convert_cap_to_weight, np.r_[pad, cd], np.r_[pad, cb], np.r_[pad, cp])
        m.close("weights", w4, np.r_[pad, w], rtol=1e-9, atol=1e-14, what="weights with %d unpopulated positions at the light end" % k)
        m.close("total capacitance", ct4, ct, rtol=1e-9, what="capacitance with unpopulated positions")
    if n > 1:
        m.expect_raise("length mismatch", ValueError, convert_cap_to_weight, cd, cb[:-1], cp)
        m.expect_raise("length mismatch", ValueError, convert_cap_to_weight, cd, cb, cp[1:])
    m.nontrivial(bool(np.any(cb[:-1] > 0) or np.any(cp > 0)))
    m.sample(bits=n, bridges=int(np.sum(cb > 0)), weights=w, reference=rw)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
