"""C21 test-signal generator: every impairment follows its documented law."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.siggen import ADC_Signal_Generator

PROPERTY = "C21"
RULE = "random length, rate, tone, amplitude and offset; every impairment on the built-in tone and on an arbitrary record; non-trivial = impairment strength not zero"
REQUIRED_ORACLES = ["clean tone", "additive noise", "quantiser", "jitter", "static nonlinearity", "requested harmonics", "memory", "settling", "residue gain", "reference droop",
                    "amplitude noise", "amplitude tone", "clipping", "drift", "glitches", "noise shaping", "input kept", "default input", "neutral", "repeatable", "rejects", "dynamic gain"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}

KINDS = ["thermal", "quant", "jitter", "static", "hd", "memory", "settle", "ra", "radyn", "ref", "amn", "amt", "clip", "drift", "glitch", "shape"]
ASSUMPTIONS = ["random impairments are judged by their statistics, never by the particular random stream"]


def cases(rng, tier):
    for i in range(1920 if tier == "quick" else 9600):
        yield {"seed": gen.seed_of(rng), "kind": KINDS[i % len(KINDS)]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [2048, 3001, 4096], 0.05)
    Fs = gen.logu(rng, 1e3, 1e10)
    b = gen.coprime_bin(rng, N, 20, N // 12)
    Fin = b * Fs / N
    A = rng.uniform(0.05, 0.6)
    DC = rng.uniform(-0.6, 0.6)
    g = m.call(ADC_Signal_Generator, N=N, Fs=Fs, Fin=Fin, A=A, DC=DC)
    t = np.arange(N) / Fs
    clean = A * np.sin(2 * np.pi * Fin * t) + DC
    m.close("clean tone", m.call(g.get_clean_signal), clean, atol=1e-9, what="clean tone")
    arb = clean + 0.05 * rng.standard_normal(N)
    own = rng.random() < 0.4
    x = None if own else arb
    xin = clean if own else arb
    ac = xin - DC
    keep = arb.copy()
    seed = int(rng.integers(1 << 30))

    def ap(name, **kw):
        np.random.seed(seed)
        if own and rng.random() < 0.5:
            return np.asarray(m.call(getattr(g, name), **kw))
        return np.asarray(m.call(getattr(g, name), x, **kw))

    if kind == "thermal":
        s = 10 ** rng.uniform(-6, 0)
        y = ap("apply_thermal_noise", noise_rms=s)
        e = y - xin
        m.close("additive noise", e.std(), s, rtol=6 / np.sqrt(2 * N) + 1e-6, what="rms of the added noise")
        m.close("additive noise", [e.mean() / s, np.mean(e[1:] * e[:-1]) / s ** 2, np.mean(e ** 4) / s ** 4 - 3], [0, 0, 0], atol=np.array([6, 7, 36]) / np.sqrt(N), what="mean, lag-1 correlation and excess kurtosis of the noise")
        m.close("neutral", ap("apply_thermal_noise", noise_rms=0.0), xin, atol=1e-9, what="zero noise")
    elif kind == "quant":
        nb = gen.ri(rng, 1, 15)
        lo = rng.uniform(-1.5, 0.2)
        hi = lo + rng.uniform(0.3, 2.5)
        y = ap("apply_quantization_noise", n_bits=nb, quant_range=(lo, hi))
        lsb = (hi - lo) / 2 ** nb
        u = (xin - lo) / lsb
        sure = np.abs(u - np.round(u)) > 1e-6
        want = np.clip(np.floor(u), 0, 2 ** nb - 1) * lsb + lo
        m.close("quantiser", y[sure], want[sure], atol=1e-9, what="%d-bit quantiser over [%.3f, %.3f]" % (nb, lo, hi))
        inr = sure & (xin > lo) & (xin < hi)
        d = (xin - y)[inr]
        m.check("quantiser", d.size == 0 or (d.min() >= -1e-9 and d.max() <= lsb * (1 + 1e-6)), "quantisation error outside one step")
        m.check("quantiser", len(np.unique(np.round(u * 0 + (y - lo) / lsb))) <= 2 ** nb, "more levels than codes")
    elif kind == "jitter":
        s = 10 ** rng.uniform(-4, -2) / Fin
        y = ap("apply_jitter", jitter_rms=s)
        slope = 2 * np.pi * Fin * A * np.cos(2 * np.pi * Fin * t) if own else None
        if own:
            e = (y - clean) / (2 * np.pi * Fin * A * s)
            m.close("jitter", np.sqrt(2) * e.std(), 1.0, atol=8 / np.sqrt(N) + 0.02, what="jitter error over slope times jitter")
            steep = np.abs(np.cos(2 * np.pi * Fin * t)) > 0.7
            m.check("jitter", e[steep].std() > 1.5 * e[~steep].std(), "jitter error does not follow the slope")
        else:
            z = 0.3 * np.sin(2 * np.pi * Fin * t + 0.7) + DC
            np.random.seed(seed)
            y = np.asarray(m.call(g.apply_jitter, z, jitter_rms=s))
            e = (y - z) / (2 * np.pi * Fin * 0.3 * s)
            m.close("jitter", np.sqrt(2) * e[5:-5].std(), 1.0, atol=8 / np.sqrt(N) + 0.03, what="jitter error on a given record")
        m.close("neutral", ap("apply_jitter", jitter_rms=0.0), xin, atol=1e-9, what="zero jitter")
    elif kind == "static":
        k = {n_: (rng.uniform(-0.5, 0.5) if rng.random() < 0.6 else 0) for n_ in ("k2", "k3", "k4", "k5")}
        y = ap("apply_static_nonlinearity", **k)
        want = DC + ac + k["k2"] * ac ** 2 + k["k3"] * ac ** 3 + k["k4"] * ac ** 4 + k["k5"] * ac ** 5
        m.close("static nonlinearity", y, want, atol=1e-10, what="polynomial about the offset, %s" % k)
        m.close("neutral", ap("apply_static_nonlinearity"), xin, atol=1e-12, what="no coefficients")
    elif kind == "hd":
        o = gen.ri(rng, 2, 6)
        lev = rng.uniform(-110, -50)
        y = np.asarray(m.call(g.apply_static_nonlinearity_hd, **{"hd%d_dB" % o: lev}))
        X = np.abs(np.fft.rfft(y - y.mean())) / N * 2
        m.close("requested harmonics", 20 * np.log10(X[gen.fold(o * b, N)] / X[b]), lev, atol=0.03 + 120 * 10 ** (lev / 20), what="harmonic %d of the generated tone" % o)
        m.close("requested harmonics", X[b], A, rtol=0.05, what="fundamental amplitude")
        np.random.seed(seed)
        m.close("default input", m.call(g.apply_static_nonlinearity_hd, clean, **{"hd%d_dB" % o: lev}), y, atol=1e-12, what="explicit clean input")
        m.close("neutral", ap("apply_static_nonlinearity_hd"), xin, atol=1e-12, what="no harmonics requested")
        # an even-order term leaves the fundamental alone, so its level is exact at any strength
        top = gen.pick(rng, [0.0, rng.uniform(-30, 6)])
        y2 = np.asarray(m.call(g.apply_static_nonlinearity_hd, hd2_dB=top))
        Y = np.abs(np.fft.rfft(y2 - y2.mean())) / N * 2
        m.close("requested harmonics", 20 * np.log10(Y[gen.fold(2 * b, N)] / Y[b]), top, atol=1e-6, what="a strong second harmonic")
        if o == 3:
            both = np.asarray(m.call(g.apply_static_nonlinearity_hd, hd2_dB=lev + 3, hd3_dB=lev))
            Y = np.abs(np.fft.rfft(both - both.mean())) / N * 2
            m.close("requested harmonics", 20 * np.log10(Y[[gen.fold(2 * b, N), gen.fold(3 * b, N)]] / Y[b]), [lev + 3, lev], atol=0.03 + 120 * 10 ** ((lev + 3) / 20), what="second and third harmonics together")
    elif kind == "memory":
        s = rng.uniform(0.001, 0.05)
        y = ap("apply_memory_effect", memory_strength=s)
        base = ap("apply_memory_effect", memory_strength=0.0)
        msb = np.floor(xin * 16) / 16
        m.close("memory", (y - base)[1:], s * msb[:-1], atol=1e-9, what="each sample carries a fraction of the previous coarse value")
        m.check("memory", np.all((xin - base) >= -1e-9) and np.all(xin - base <= 2.0 ** -12 + 1e-9), "without memory the record is only finely quantised")
    elif kind == "settle":
        tau = rng.uniform(0.02, 0.4) / Fs
        T = rng.uniform(0.1, 0.5) / Fs
        k = rng.uniform(0, 0.5)
        y = ap("apply_incomplete_sampling", T_track=T, tau_nom=tau, coeff_k=k)
        prev = np.concatenate([[0.0], (y - DC)[:-1]])
        a = np.exp(-T / (tau * (1 + k * ac ** 2)))
        m.close("settling", y - DC, ac + (prev - ac) * a, atol=1e-10, what="exponential settling from the previous output")
        yd = ap("apply_incomplete_sampling", tau_nom=tau, coeff_k=k)
        m.close("settling", yd, ap("apply_incomplete_sampling", T_track=0.2 / Fs, tau_nom=tau, coeff_k=k), atol=1e-10, what="default tracking time is a fifth of the period")
        m.close("neutral", ap("apply_incomplete_sampling", T_track=1e3 / Fs, tau_nom=tau, coeff_k=0.0), xin, atol=1e-9, what="full settling")
    elif kind in ("ra", "radyn"):
        rg = rng.uniform(0.9, 1.1)
        mb, lb = gen.ri(rng, 2, 7), gen.ri(rng, 7, 14)
        mode = gen.pick(rng, ["coarse_path", "residue_path"])
        msb = np.floor(ac * 2 ** mb) / 2 ** mb
        lsb = np.floor((ac - msb) * 2 ** lb) / 2 ** lb
        near = np.abs(ac * 2 ** lb - np.round(ac * 2 ** lb)) < 1e-6
        if kind == "ra":
            y = ap("apply_ra_gain_error", relative_gain=rg, msb_bits=mb, lsb_bits=lb, mode=mode)
            want = DC + (msb * rg + lsb if mode == "coarse_path" else msb + lsb * rg)
            m.close("residue gain", y[~near], want[~near], atol=1e-9, what="gain error in the %s" % mode)
            m.expect_raise("rejects", ValueError, g.apply_ra_gain_error, x, mode="other")
            y = ap("apply_ra_gain_error", relative_gain=1.0, msb_bits=mb, lsb_bits=lb, mode=mode)
            m.check("neutral", np.all(np.abs(xin - y) <= 2.0 ** -lb + 1e-9), "unit gain leaves more than the fine quantisation")
        else:
            c3 = rng.uniform(-0.3, 0.3)
            y = ap("apply_ra_gain_error_dynamic", relative_gain=rg, coeff_3=c3, msb_bits=mb, lsb_bits=lb, mode=mode)
            out = np.zeros(N)
            st = 0.0
            for n in range(N):
                G = rg + c3 * st ** 2
                if mode == "coarse_path":
                    out[n] = msb[n] * G + lsb[n]
                    st = out[n]
                else:
                    out[n] = msb[n] + lsb[n] * G
                    st = lsb[n] * G
            if not near.any():
                m.close("dynamic gain", y, out + DC, atol=1e-9, what="history-dependent gain in the %s" % mode)
            m.close("dynamic gain", ap("apply_ra_gain_error_dynamic", relative_gain=rg, coeff_3=0.0, msb_bits=mb, lsb_bits=lb, mode=mode)[~near],
                    ap("apply_ra_gain_error", relative_gain=rg, msb_bits=mb, lsb_bits=lb, mode=mode)[~near], atol=1e-9, what="no dynamic term equals the static gain error")
            m.expect_raise("rejects", ValueError, g.apply_ra_gain_error_dynamic, x, mode="other")
    elif kind == "ref":
        tau = rng.uniform(0.3, 8)
        s = rng.uniform(0.001, 0.05)
        y = ap("apply_reference_error", settling_tau=tau, droop_strength=s)
        d = np.exp(-1 / tau)
        st = 0.0
        want = np.zeros(N)
        for n in range(N):
            st = d * st + s * abs(ac[n])
            want[n] = ac[n] * (1 - st)
        m.close("reference droop", y, want + DC, atol=1e-10, what="decaying droop from past signal magnitude")
        m.close("neutral", ap("apply_reference_error", settling_tau=tau, droop_strength=0.0), xin, atol=1e-12, what="no droop")
    elif kind == "amn":
        s = rng.uniform(0.001, 0.1)
        y = ap("apply_am_noise", strength=s)
        big = np.abs(ac) > 1e-3
        e = ((y - DC) / np.where(big, ac, 1) - 1)[big]
        m.close("amplitude noise", [e.std() / s - 1, e.mean() / s, np.mean(e[1:] * e[:-1]) / s ** 2], [0, 0, 0], atol=np.array([6, 7, 7]) / np.sqrt(big.sum()) + 1e-6, what="relative envelope noise: spread, mean, lag-1 correlation")
        m.close("amplitude noise", (y - DC)[np.abs(ac) < 1e-9], ac[np.abs(ac) < 1e-9], atol=1e-8, what="zero crossings stay put")
        m.close("neutral", ap("apply_am_noise", strength=0.0), xin, atol=1e-12, what="zero strength")
    elif kind == "amt":
        dep = rng.uniform(0.001, 0.3)
        f = gen.ri(rng, 1, 15) * Fs / N
        y = ap("apply_am_tone", am_tone_freq=f, am_tone_depth=dep)
        m.close("amplitude tone", y, DC + ac * (1 + dep * np.sin(2 * np.pi * f * t)), atol=1e-9, what="amplitude modulation")
        m.close("neutral", ap("apply_am_tone", am_tone_freq=f, am_tone_depth=0.0), xin, atol=1e-12, what="zero depth")
    elif kind == "clip":
        p = rng.uniform(0.1, 20)
        y = ap("apply_clipping", percentile_clip=p)
        lo, hi = np.percentile(xin, p), np.percentile(xin, 100 - p)
        m.close("clipping", y, np.clip(xin, lo, hi), atol=1e-12, what="clipping at the %.2f and %.2f percentiles" % (p, 100 - p))
        g0 = m.call(ADC_Signal_Generator, N=N, Fs=Fs, Fin=Fin, A=A, DC=0.0)
        z = np.sin(2 * np.pi * Fin * t) * A
        z = z + rng.uniform(-0.6, 0.6) * z ** 2 / A + 0.01 * A * rng.standard_normal(N)
        m.close("clipping", m.call(g0.apply_clipping, z, percentile_clip=p), np.clip(z, np.percentile(z, p), np.percentile(z, 100 - p)), atol=1e-12, what="clipping a lopsided record without offset")
        m.close("neutral", ap("apply_clipping", percentile_clip=0.0), xin, atol=1e-12, what="zero percentile")
    elif kind == "drift":
        s = 10 ** rng.uniform(-6, -2)
        NL = 16384
        g2 = ADC_Signal_Generator(N=NL, Fs=Fs, Fin=Fin, A=A, DC=DC)
        cl = g2.get_clean_signal()
        acc = []
        for k in range(12):
            np.random.seed(seed + k)
            d = np.asarray(m.call(g2.apply_drift, None if own else cl, drift_scale=s)) - cl
            acc.append((d[3 * NL // 4] - d[NL // 4]) / (s * np.sqrt(NL / 2)))
        r = np.sqrt(np.mean(np.square(acc)))
        m.check("drift", 0.25 < r < 2.2, lambda: "rms wander over half the record is %.2f of a random walk with that step" % r)
        D = np.abs(np.fft.rfft((d - d.mean()) * np.hanning(NL))) ** 2
        m.check("drift", D[NL // 50:].sum() < 1e-3 * D.sum(), "drift contains fast components")
        np.random.seed(seed)
        d1 = np.asarray(m.call(g2.apply_drift, cl, drift_scale=s)) - cl
        np.random.seed(seed)
        d2 = np.asarray(m.call(g2.apply_drift, cl, drift_scale=3 * s)) - cl
        m.close("drift", d2, 3 * d1, atol=1e-9, rtol=1e-6, what="drift is proportional to its scale")
        m.close("neutral", ap("apply_drift", drift_scale=0.0), xin, atol=1e-12, what="zero drift")
    elif kind == "glitch":
        p = 10 ** rng.uniform(-2.5, -0.5) if rng.random() < 0.6 else rng.uniform(0.3, 0.97)
        a = rng.uniform(-0.5, 0.5)
        y = ap("apply_glitch", glitch_prob=p, glitch_amplitude=a)
        e = (y - xin) / a
        hit = np.abs(e - 1) < 1e-6
        m.check("glitches", np.all(hit | (np.abs(e) < 1e-6)), "a sample moved by something other than zero or the glitch amplitude")
        m.close("glitches", hit.mean(), p, atol=6 * np.sqrt(p * (1 - p) / N) + 1.5 / N, what="fraction of glitches")
        m.close("neutral", ap("apply_glitch", glitch_prob=0.0, glitch_amplitude=a), xin, atol=1e-12, what="zero probability")
    else:
        nb = gen.ri(rng, 3, 12)
        lo, hi = DC - A - 0.4, DC + A + 0.4
        form = gen.pick(rng, ["order", "order", "fir", "firpair", "iir"])
        if form == "order":
            o = gen.ri(rng, 1, 6)
            kw = dict(order=o)
            num = np.poly(np.ones(o))
            den = np.array([1.0])
        elif form == "fir":
            num = np.concatenate([[1.0], rng.uniform(-1, 1, gen.ri(rng, 1, 4))])
            den = np.array([1.0])
            kw = dict(ntf=list(num))
        elif form == "firpair":
            num = np.concatenate([[1.0], rng.uniform(-1, 1, gen.ri(rng, 1, 4))])
            den = np.array([1.0])
            kw = dict(ntf=(list(num), [1.0]))
        else:
            num = np.poly(rng.uniform(0.5, 1, 2))
            den = np.poly(rng.uniform(-0.6, 0.6, 2))
            kw = dict(ntf=(num, den))
        y = ap("apply_noise_shaping", n_bits=nb, quant_range=(lo, hi), **kw)
        np.random.seed(seed)
        q = np.asarray(m.call(g.apply_quantization_noise, xin, n_bits=nb, quant_range=(lo, hi))) - xin
        want = np.zeros(N)
        for n in range(N):
            v = sum(num[i] * q[n - i] for i in range(len(num)) if n >= i)
            v -= sum(den[i] * want[n - i] for i in range(1, len(den)) if n >= i)
            want[n] = v / den[0]
        m.close("noise shaping", y - xin, want, atol=1e-9, what="quantisation error filtered by the noise transfer function (%s)" % form)
        for bad in (0, 6, -1):
            m.expect_raise("rejects", ValueError, g.apply_noise_shaping, x, order=bad)
    # generic laws
    name, kw = {"thermal": ("apply_thermal_noise", {}), "quant": ("apply_quantization_noise", {}), "jitter": ("apply_jitter", {"jitter_rms": 1e-3 / Fin}), "static": ("apply_static_nonlinearity", {"k2": 0.1}),
                "hd": ("apply_static_nonlinearity_hd", {"hd3_dB": -60}), "memory": ("apply_memory_effect", {}), "settle": ("apply_incomplete_sampling", {"tau_nom": 0.05 / Fs}),
                "ra": ("apply_ra_gain_error", {}), "radyn": ("apply_ra_gain_error_dynamic", {}), "ref": ("apply_reference_error", {}), "amn": ("apply_am_noise", {}),
                "amt": ("apply_am_tone", {"am_tone_freq": Fs / N}), "clip": ("apply_clipping", {}), "drift": ("apply_drift", {}), "glitch": ("apply_glitch", {"glitch_prob": 0.01}), "shape": ("apply_noise_shaping", {})}[kind]
    z = arb.copy()
    np.random.seed(seed)
    y1 = np.asarray(m.call(getattr(g, name), z, **kw))
    m.equal("input kept", z, keep, "record passed to %s" % name)
    m.check("input kept", not np.shares_memory(y1, z), "%s returns the caller's array" % name)
    m.equal("input kept", y1.shape, (N,), "length after %s" % name)
    np.random.seed(seed)
    m.equal("repeatable", np.asarray(m.call(getattr(g, name), z, **kw)), y1, "%s with the same random seed" % name)
    np.random.seed(seed)
    d0 = np.asarray(m.call(getattr(g, name), **kw))
    np.random.seed(seed)
    d1 = np.asarray(m.call(getattr(g, name), clean.copy(), **kw))
    near = np.zeros(N, bool)
    tol = 1e-9
    if kind == "jitter":
        near[:5] = near[-5:] = True
        tol = 1e-3 * A
    if kind in ("quant", "memory", "ra", "radyn", "shape"):
        return m.nontrivial()
    m.close("default input", d0[~near], d1[~near], atol=tol, what="%s without an input uses the clean tone" % name)
    m.nontrivial()
    m.sample(kind=kind, N=N, tone_bin=b, amplitude=A, offset=DC)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
