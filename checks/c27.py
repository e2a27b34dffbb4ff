"""C27 INL/DNL from a sine histogram."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.aout import compute_inl_from_sine, analyze_inl_from_sine

PROPERTY = "C27"
RULE = "simulated converters with known code widths sampled by coherent sines with offset and amplitude errors; integer codes, float codes and voltages; non-trivial = code widths differ"
REQUIRED_ORACLES = ["code widths", "accumulated", "code labels", "missing code", "order independence", "code offset", "storage type", "voltage input", "analyser", "edge share", "input kept"]
MIN_NONTRIVIAL = {"quick": 60, "thorough": 600}


def cases(rng, tier):
    kinds = ["known", "known", "meta", "volt", "missing"]
    for i in range(750 if tier == "quick" else 4500):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def labels(m, codes, lo, hi):
    """Widths belong to the inner codes lo+1..hi-1; the listing that starts at lo is the known mislabel."""
    codes = np.asarray(codes)
    want = np.arange(lo + 1, hi)
    if codes.shape == want.shape and np.array_equal(codes, want - 1) and len(want):
        m.known_finding("sine-histogram INL/DNL lists each code's value one code too low (widths of codes 1..n are listed at 0..n-1, as in the MATLAB reference)")
        m.check("code labels", True)
    else:
        m.equal("code labels", codes, want, "codes to which the widths belong")


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    nb = gen.ri(rng, 4, 9)
    N = gen.pick(rng, [2 ** 15, 30011, 50000])
    if rng.random() < 0.03:
        nb, N = gen.ri(rng, 12, 16), 2 ** 20
    K = 2 ** nb
    J = gen.coprime_bin(rng, N, 50, N // 3)
    ph = 2 * np.pi * (J * np.arange(N) % N) / N + rng.uniform(0, 6.28)
    w = np.maximum(rng.normal(1, rng.uniform(0.05, 0.4), K), 0.05)
    miss = None
    if kind == "missing":
        miss = gen.ri(rng, K // 3, 2 * K // 3)
        w[miss] = 0
    T = np.concatenate([[0], np.cumsum(w)])  # lower edge of code k
    span = T[-1]
    A = span / 2 * rng.uniform(0.8, 1.1)
    off = span / 2 + span * rng.uniform(-0.05, 0.05)
    x = off + A * np.sin(ph)
    codes = np.clip(np.searchsorted(T, x, side="right") - 1, 0, K - 1)
    clip = gen.pick(rng, [0.01, 0.01, 0.0, 0.03, 0.05])
    cmin, cmax = int(codes.min()), int(codes.max())
    amount = clip * (cmax - cmin)
    if abs(amount - np.floor(amount) - 0.5) < 1e-6:
        return m.skip("edge share falls between two codes")
    ex = int(np.round(amount))
    lo, hi = cmin + ex, cmax - ex
    shift = gen.ri(rng, -100, 1000) if rng.random() < 0.5 else 0
    if rng.random() < 0.1:
        shift = gen.pick(rng, [-40000, 32700, 65500, 10 ** 6])
    data = codes + shift
    keep = data.copy()
    f = gen.pick(rng, [compute_inl_from_sine, lambda d, **k: tuple(analyze_inl_from_sine(d, create_plot=False, **k)[q] for q in ("inl", "dnl", "code"))])
    f.__name__ = "inl_from_sine"
    kw = {} if clip == 0.01 and rng.random() < 0.5 else dict(clip_percent=clip)
    inl, dnl, cd = m.call(f, data, **kw)
    m.equal("input kept", data, keep, "caller's codes")
    n = hi - lo + 1
    m.equal("edge share", len(dnl), n - 2, "number of inner codes kept with edge share %g" % clip)
    labels(m, cd, lo + shift, hi + shift)
    inner = w[lo + 1:hi]
    d = inner / inner.mean() - 1
    # resolution of the count is one sample: pi*A/N volts per transition; the toolbox scales by n/(n-2)
    q = 2 * np.pi * A / N / inner.mean() * 2.2
    m.close("code widths", dnl, d, atol=q + 2.5 / max(n - 2, 1) * np.abs(d).max() + 1e-9, what="DNL against true code widths (%d bits)" % nb)
    if abs((off - span / 2)) + A > 0 and np.std(d) > 0.05 and n > 10:
        m.check("code widths", np.corrcoef(dnl, d)[0, 1] > 0.99 - 10 * q, "DNL does not follow the true code widths")
    m.close("accumulated", inl, np.cumsum(dnl), atol=1e-9, what="INL is the running sum of DNL")
    I = np.cumsum(d)
    m.close("accumulated", inl, I, atol=2 * q + 3.0 / max(n - 2, 1) * (np.abs(I).max() + np.abs(d).max()) + (np.abs(inl[-1]) if miss is not None else 0) + 1e-9, what="INL against the true transitions (%d bits)" % nb)
    if miss is not None and lo + 1 < miss < hi - 1:
        m.close("missing code", dnl[miss - lo - 1], -1.0, atol=1e-9, what="DNL of the missing code")
        m.check("missing code", np.sum(np.asarray(dnl) <= -0.93) >= 1, "no missing code reported")
    # same record in other forms
    i2, d2, c2 = m.call(f, rng.permutation(data), **kw)
    m.close("order independence", d2, dnl, atol=1e-12, what="DNL of the shuffled record")
    s = gen.ri(rng, -40, 40)
    i2, d2, c2 = m.call(f, data + s, **kw)
    m.close("code offset", d2, dnl, atol=1e-12, what="DNL with shifted codes")
    m.equal("code offset", np.asarray(c2), np.asarray(cd) + s, "codes shifted by %d" % s)
    dt = gen.pick(rng, [np.int16, np.int32, np.float64, np.float32, "narrow", "list", "column", "rounding"])
    if (dt is np.int16 and np.abs(data).max() > 32767) or (dt == "narrow" and nb > 8):
        dt = np.int32
    if dt == "narrow":
        y = codes.astype(np.uint8)
        base = m.call(f, codes, **kw)
    elif dt == "list":
        y, base = data.tolist(), (inl, dnl, cd)
    elif dt == "rounding":
        # codes that went through a calculation: whole numbers up to rounding
        y, base = data + rng.uniform(-1e-6, 1e-6, len(data)), (inl, dnl, cd)
    elif dt == "column":
        y, base = data.reshape(-1, 1), (inl, dnl, cd)
    else:
        y, base = data.astype(dt), (inl, dnl, cd)
    i2, d2, c2 = m.call(f, y, **kw)
    m.close("storage type", d2, base[1], atol=1e-12, what="DNL from %s codes" % (dt if isinstance(dt, str) else np.dtype(dt)))
    m.equal("storage type", np.asarray(c2).astype(int), np.asarray(base[2]).astype(int), "codes from other storage")
    if kind == "volt":
        b2 = gen.pick(rng, [None, 6, 8, 10])
        form = gen.pick(rng, ["unipolar", "bipolar", "scaled"])
        a = rng.uniform(0.505, 0.54) if form != "bipolar" and rng.random() < 0.4 else rng.uniform(0.3, 0.49)
        u = 0.5 + a * np.sin(ph) + rng.uniform(-0.005, 0.005)
        nbv = 10 if b2 is None else b2
        v = u * 2 ** nbv
        ok = np.abs(v - np.floor(v) - 0.5) > 1e-6
        u, v = u[ok], v[ok]
        want_codes = np.clip(np.round(v), 0, 2 ** nbv - 1).astype(int)
        k2 = dict(kw)
        if b2 is not None:
            k2["num_bits"] = b2
        if form == "unipolar":
            y = u
        elif form == "bipolar":
            y = 2 * u - 1
        else:
            fsv = rng.uniform(0.2, 1.8)
            y = u * fsv
            k2["full_scale"] = fsv
        kv = y.copy()
        got = m.call(f, y, **k2)
        want = m.call(f, want_codes, **kw)
        m.equal("input kept", y, kv, "caller's voltages")
        m.equal("voltage input", np.asarray(got[2]), np.asarray(want[2]), "codes from %s voltages, %d bits" % (form, nbv))
        m.close("voltage input", got[1], want[1], atol=1e-9, what="DNL from %s voltages, %d bits" % (form, nbv))
    if rng.random() < 0.15:
        r = m.call(analyze_inl_from_sine, data, create_plot=True, **kw)
        m.close("analyser", r["dnl"], dnl, atol=0, what="DNL with a plot")
        ys = [np.asarray(ln.get_ydata(), float) for a in plt.gcf().axes for ln in a.get_lines()]
        m.check("analyser", any(y.shape == np.shape(inl) and np.allclose(y, inl) for y in ys), "no plotted curve equals the INL")
        plt.close("all")
    m.nontrivial()
    m.sample(kind=kind, bits=nb, N=N, edge_share=clip, dnl_range=[float(np.min(dnl)), float(np.max(dnl))])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
