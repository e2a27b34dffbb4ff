"""C31 static nonlinearity from a distorted sine."""
import sys
import warnings
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.aout import fit_static_nonlin

PROPERTY = "C31"
RULE = "coherent sines through known polynomials of order 2-5, any amplitude, offset, start phase and length; non-trivial = at least one non-zero coefficient"
REQUIRED_ORACLES = ["second order", "third order", "transfer curve", "fitted sine", "units", "offset", "order two", "rejects", "layout", "input kept", "order warning"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    for i in range(3500 if tier == "quick" else 17500):
        yield {"seed": gen.seed_of(rng), "kind": ["poly", "poly", "high", "two", "reject", "offbin"][i % 6]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [512, 999, 1024, 2048])
    n = np.arange(N)
    if kind == "reject":
        x = np.sin(0.3 * n)
        for bad in (1, 0, -2, 2.5, "3"):
            m.expect_raise("rejects", ValueError, fit_static_nonlin, x, bad)
        o = gen.ri(rng, 2, 8)
        m.expect_raise("rejects", ValueError, fit_static_nonlin, x[:o + gen.pick(rng, [0, 1])], o)
        m.expect_raise("rejects", ValueError, fit_static_nonlin, x * 1e-12, 3)
        for o, warns in ((11, True), (15, True), (10, False), (6, False)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                fit_static_nonlin(x + 1e-3 * rng.standard_normal(N), o)
            m.check("order warning", any(issubclass(v.category, UserWarning) and "order" in str(v.message).lower() for v in w) == warns, lambda: "order %d: warnings %s" % (o, [str(v.message) for v in w]))
        m.nontrivial()
        return
    if kind == "offbin":
        # between bins the record's mean differs from its offset: the curve still belongs to the record and the reported sine
        A = gen.logu(rng, 1e-6, 1e4)
        fo = rng.uniform(2.2, 12) / N if rng.random() < 0.6 else rng.uniform(0.03, 0.4)
        u = np.cos(2 * np.pi * fo * n + rng.uniform(0, 6.28))
        dc = A * rng.uniform(-3, 3)
        y = dc + A * (u + rng.uniform(-0.05, 0.05) * u ** 2 + rng.uniform(-0.05, 0.05) * u ** 3) + 1e-5 * A * rng.standard_normal(N)
        order = gen.ri(rng, 2, 7)
        k2, k3, fit, (tx, ty) = m.call(fit_static_nonlin, y, order)
        xc = fit - fit.mean()
        sc = np.abs(xc).max()
        co = np.linalg.lstsq(np.column_stack([(xc / sc) ** k for k in range(order + 1)]), y - y.mean(), rcond=None)[0]
        m.close("transfer curve", ty, np.vander((tx - fit.mean()) / sc, order + 1, increasing=True) @ co + y.mean(), atol=1e-6 * A * (1 + abs(dc) / A), what="curve of an off-bin record is the polynomial fitted to it")
        m.close("transfer curve", k2 * A, co[2] / co[1] / sc * A, rtol=1e-5, atol=1e-8, what="second order against the reported sine")
        m.close("transfer curve", [tx[0], tx[-1]], [fit.min(), fit.max()], atol=1e-9 * A * (1 + abs(dc) / A), what="range of the transfer curve")
        m.nontrivial()
        return
    for _ in range(50):
        b = gen.coprime_bin(rng, N, 10, N // 2 - 10)
        al = [gen.fold(h * b, N) for h in range(1, 6)]
        if min(abs(p - q) for i, p in enumerate(al) for q in al[:i]) > 3 and min(al) > 3:
            break
    else:
        return m.skip("harmonics overlap")
    A = gen.logu(rng, 1e-6, 1e4)
    dc = A * rng.uniform(-3, 3)
    x = A * np.cos(2 * np.pi * b * n / N + rng.uniform(0, 6.28))
    a2, a3 = rng.uniform(-0.05, 0.05, 2)
    a4 = a5 = 0.0
    order = gen.ri(rng, 3, 8)
    if kind == "high":
        a4, a5 = rng.uniform(-0.02, 0.02, 2)
        order = gen.ri(rng, 5, 8)
    elif kind == "two":
        a3, order = 0.0, 2
    u = x / A
    s = 10 ** rng.uniform(-7, -4)
    noise = s * A * rng.standard_normal(N)
    y = dc + x + A * (a2 * u ** 2 + a3 * u ** 3 + a4 * u ** 4 + a5 * u ** 5) + noise
    keep = y.copy()
    k2, k3, fit, (tx, ty) = m.call(fit_static_nonlin, y, order)
    m.equal("input kept", y, keep, "caller's record")
    g = 1 + 0.75 * a3 + 0.625 * a5  # growth of the fundamental, which the reference sine includes
    sep = min(abs(q - al[0]) for q in al[1:])
    S = abs(a2) + abs(a3) + abs(a4) + abs(a5)
    # the curve is the least-squares polynomial of the record against the reported sine
    xc = fit - fit.mean()
    sc = np.abs(xc).max()
    V = np.column_stack([(xc / sc) ** k for k in range(order + 1)])
    co = np.linalg.lstsq(V, y - y.mean(), rcond=None)[0]
    m.close("transfer curve", k2 * A, co[2] / co[1] / sc * A, rtol=1e-5, atol=1e-8, what="second order against the reported sine")
    if order >= 3:
        m.close("transfer curve", k3 * A * A, co[3] / co[1] / sc ** 2 * A * A, rtol=1e-5, atol=1e-8, what="third order against the reported sine")
    m.close("transfer curve", ty, np.vander((tx - fit.mean()) / sc, order + 1, increasing=True) @ co + y.mean(), atol=1e-7 * A * (1 + abs(dc) / A), what="curve is the polynomial fitted to the record")
    W = np.column_stack([np.cos(2 * np.pi * b * n / N), np.sin(2 * np.pi * b * n / N), np.ones(N)])
    best = W @ np.linalg.lstsq(W, y, rcond=None)[0]
    d = np.abs(fit - best).max() / A
    m.close("fitted sine", best, dc + A * (a2 / 2 + 0.375 * a4) + g * x, atol=A * (1e-9 * (1 + abs(dc) / A) + 10 * s), what="workload check")
    # one refinement step is documented; harmonics leave it this far from the best sine
    m.check("fitted sine", d < 10 * s + 1.5 * S * (3.0 / min(b, N // 2 - b, sep) + 0.02), lambda: "reference sine is %.3g of the amplitude away from the best sine (distortion %.3g, bin %d of %d)" % (d, S, b, N))
    tol = 60 * s / np.sqrt(N) * 10 ** (order - 2.0) ** 0.5 + 3 * 1.9 ** (order - 2) * d + 1e-9
    m.close("second order", k2 * A, a2 / g, atol=tol, what="second-order coefficient relative to the linear one (order %d)" % order)
    if kind == "two":
        m.check("order two", np.isnan(k3), "third-order coefficient from a second-order fit")
    else:
        m.close("third order", k3 * A * A, a3 / g ** 2, atol=2 * tol, what="third-order coefficient relative to the linear one (order %d)" % order)
    m.close("transfer curve", [tx[0], tx[-1]], [fit.min(), fit.max()], atol=1e-9 * A * (1 + abs(dc) / A), what="range of the transfer curve")
    m.check("transfer curve", len(tx) == len(ty) and np.all(np.diff(tx) > 0), "transfer curve is not a curve over increasing inputs")
    c1 = 2.0 ** gen.ri(rng, -10, 11)
    q = m.call(fit_static_nonlin, y * c1, order)
    m.close("units", q[0] * c1, k2, rtol=1e-4, atol=1e-6 / A, what="second order in other units")
    if kind != "two":
        m.close("units", q[1] * c1 ** 2, k3, rtol=1e-4, atol=1e-6 / A ** 2, what="third order in other units")
    q = m.call(fit_static_nonlin, y + A * rng.uniform(-5, 5), order)
    m.close("offset", q[0] * A, k2 * A, atol=1e-5, what="second order after adding an offset")
    q = m.call(fit_static_nonlin, -y, order)
    m.close("units", q[0] * A, -k2 * A, atol=1e-5, what="second order changes sign with polarity")
    q = m.call(fit_static_nonlin, y.reshape(-1, 1), np.int64(order))
    m.close("layout", q[0], k2, rtol=1e-9, what="column record")
    m.nontrivial()
    m.sample(kind=kind, N=N, bin=b, order=order, k2=float(k2 * A), k3=float(k3 * A * A))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
