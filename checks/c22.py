"""C22 brickwall band extraction."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.spectrum import extract_freq_components
from adctoolbox.oversampling import ifilter

PROPERTY = "C22"
RULE = "random records of odd and even length, one or several columns, one or several bands including DC and the top of the band; non-trivial = something passes and something is removed"
REQUIRED_ORACLES = ["passes or stops", "complement", "idempotent", "linear", "columns", "wrapper", "band order", "rejects", "input kept", "whole band"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}


def cases(rng, tier):
    for i in range(9000 if tier == "quick" else 45000):
        yield {"seed": gen.seed_of(rng), "kind": ["tone", "split", "cols", "tone", "multi", "reject"][i % 6]}


def edge(rng, N, k):
    """A band edge that rounds to bin k without ambiguity."""
    return min(max((k + rng.uniform(-0.4, 0.4)) / N, 0.0), 0.5)


def keepmask(N, bands):
    top = N // 2
    k = np.zeros(top + 1, bool)
    for a, b in bands:
        k[a:b + 1] = True
    return k


def project(x, mask):
    X = np.fft.rfft(x, axis=0)
    X[~mask] = 0
    return np.fft.irfft(X, n=x.shape[0], axis=0)


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.ri(rng, 8, 200) if rng.random() < 0.98 else gen.pick(rng, gen.BIG)
    top = N // 2
    n = np.arange(N)
    fn = gen.pick(rng, [extract_freq_components, ifilter])
    if kind == "reject":
        x = rng.standard_normal(N)
        for bad in ([0.1, 0.6], [-0.1, 0.2], [[0.1, 0.2, 0.3]], [0.1, 0.2, 0.3], [0.1]):
            m.expect_raise("rejects", ValueError, fn, x, bad)
        m.expect_raise("rejects", ValueError, fn, x + 1j * x, [0.1, 0.2])
        m.nontrivial()
        return
    k1 = gen.ri(rng, 0, top + 1)
    k2 = gen.ri(rng, k1, top + 1)
    if rng.random() < 0.2:
        k1 = 0
    if rng.random() < 0.2:
        k2 = top
    lo = 0.0 if k1 == 0 and rng.random() < 0.5 else edge(rng, N, k1)
    hi = 0.5 if k2 == top and (N % 2 == 0 or rng.random() < 0.5) else edge(rng, N, k2)
    if kind == "tone":
        # single bins, including DC, the band edges, their outer neighbours and the top bin
        for k in sorted({0, k1 - 1, k1, k2, k2 + 1, top, gen.ri(rng, 0, top + 1)}):
            if not 0 <= k <= top:
                continue
            x = np.cos(2 * np.pi * ((k * n) % N) / N + (0 if k in (0, N / 2) else rng.uniform(0, 6.28)))
            y = np.asarray(m.call(fn, x, [lo, hi]))
            m.equal("passes or stops", y.shape, (N, 1), "shape of the filtered record")
            m.close("passes or stops", y[:, 0], x if k1 <= k <= k2 else 0 * x, atol=1e-10, what="bin %d of %d through the band of bins %d-%d" % (k, N, k1, k2))
        m.nontrivial()
    elif kind == "split":
        x = rng.standard_normal(N)
        keep = x.copy()
        # adjoining bands that tile the whole spectrum add up to the record
        cuts = np.sort(rng.choice(np.arange(1, top + 1), size=min(gen.ri(rng, 1, 5), top), replace=False))
        parts = np.zeros(N)
        s = 0
        for cu in list(cuts) + [top + 1]:
            if cu - 1 >= s:
                b = [edge(rng, N, s), 0.5 if cu - 1 == top else edge(rng, N, cu - 1)]
                parts = parts + np.asarray(m.call(fn, x, b))[:, 0]
            s = cu
        m.close("complement", parts, x, atol=1e-9, what="sum over adjoining bands of a %d-sample record" % N)
        m.close("whole band", np.asarray(m.call(fn, x, [0, 0.5]))[:, 0], x, atol=1e-10, what="whole band")
        y = np.asarray(m.call(fn, x, [lo, hi]))
        m.close("idempotent", np.asarray(m.call(fn, y[:, 0], [lo, hi])), y, atol=1e-10, what="filtering twice")
        m.close("band order", np.asarray(m.call(fn, x, [hi, lo])), y, atol=1e-12, what="band given high to low")
        m.close("band order", np.asarray(m.call(fn, x, np.array([[lo, hi]]))), y, atol=1e-12, what="band given as a one-row table")
        z = rng.standard_normal(N)
        m.close("linear", np.asarray(m.call(fn, 2 * x - z, [lo, hi])), 2 * y - np.asarray(m.call(fn, z, [lo, hi])), atol=1e-9, what="superposition")
        m.close("passes or stops", y[:, 0], project(x, keepmask(N, [(k1, k2)])), atol=1e-10, what="projection on the band")
        m.equal("input kept", x, keep, "caller's record")
        m.close("wrapper", np.asarray(m.call(ifilter, x, [lo, hi])), np.asarray(m.call(extract_freq_components, x, [lo, hi])), atol=0, what="both entry points")
        m.nontrivial()
    elif kind == "multi":
        bands, edges = [], []
        for _ in range(gen.ri(rng, 2, 5)):
            a = gen.ri(rng, 0, top + 1)
            b = gen.ri(rng, a, min(top, a + 6) + 1)
            bands.append((a, b))
            edges.append([edge(rng, N, a), edge(rng, N, b)])
        x = rng.standard_normal(N)
        y = np.asarray(m.call(fn, x, edges))
        m.close("passes or stops", y[:, 0], project(x, keepmask(N, bands)), atol=1e-10, what="union of %d bands" % len(bands))
        m.nontrivial()
    else:
        C = gen.ri(rng, 2, 7) if rng.random() < 0.6 else gen.ri(rng, 7, 24)
        N = gen.ri(rng, 25, 120) if rng.random() < 0.6 else max(8, gen.ri(rng, C + 1, 3 * C + 1))
        top = N // 2
        x = rng.standard_normal((N, C))
        k1 = gen.ri(rng, 0, top)
        k2 = gen.ri(rng, k1, top)
        b = [edge(rng, N, k1), edge(rng, N, k2)]
        y = np.asarray(m.call(fn, x, b))
        m.equal("columns", y.shape, (N, C), "shape")
        m.close("columns", y, project(x, keepmask(N, [(k1, k2)])), atol=1e-10, what="each column on its own")
        m.close("columns", np.asarray(m.call(fn, x.T, b)), y, atol=1e-12, what="channels given as rows")
        m.nontrivial()
    m.sample(kind=kind, N=N, band=[float(lo), float(hi)])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
