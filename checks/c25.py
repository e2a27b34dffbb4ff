"""C25 bit-level diagnostics: activity, segment overflow, weight radix, residuals, ENOB against bit count."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
import sarsim
from adctoolbox import dout
from adctoolbox.calibration import calibrate_weight_sine
from adctoolbox.spectrum import analyze_spectrum

PROPERTY = "C25"
RULE = ("random bit matrices (balanced, biased, stuck, boolean, small integer types), weight lists (integer, fractional, negative, redundant, with tiny trims); "
        "non-trivial = at least two bits with different activity or weight")
REQUIRED_ORACLES = ["activity", "overflow share", "segment range", "plot independence", "radix", "effective resolution", "integer scale", "scale equivariance", "order independence",
                    "residuals", "bit sweep", "legacy names", "rejects", "input kept"]
MIN_NONTRIVIAL = {"quick": 150, "thorough": 1500}


def cases(rng, tier):
    kinds = ["act", "ovf", "ovf", "radix", "radix", "resid", "sweep", "reject"]
    for i in range(640 if tier == "quick" else 4800):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def bitmat(rng, N, M):
    b = (rng.random((N, M)) < rng.uniform(0.02, 0.98, M)).astype(int)
    if rng.random() < 0.3:
        b[:, gen.ri(rng, 0, M)] = gen.ri(rng, 0, 2)
    if rng.random() < 0.5:
        k = gen.ri(rng, 0, M)
        r = rng.random(N) < 0.1
        b[np.ix_(r, np.arange(k, M))] = gen.ri(rng, 0, 2)
    return b


def wlist(rng, M):
    f = gen.pick(rng, ["bin", "sub", "int", "frac"])
    if f == "bin":
        w = 2.0 ** np.arange(M - 1, -1, -1)
    elif f == "sub":
        w = rng.uniform(1.6, 2.0) ** np.arange(M - 1, -1, -1)
    elif f == "int":
        w = np.sort(rng.integers(1, 200, M))[::-1].astype(float)
    else:
        w = np.sort(rng.uniform(0.001, 1, M))[::-1].copy()
    return w * (1.0 if rng.random() < 0.5 else gen.logu(rng, 1e-4, 1e3))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.ri(rng, 20, 400) if rng.random() < 0.94 else gen.pick(rng, gen.BIG)
    M = gen.ri(rng, 2, 15)
    b = bitmat(rng, N, M)
    if kind == "act":
        dt = gen.pick(rng, [int, bool, np.int8, np.uint8, float, np.float32])
        bb = b.astype(dt)
        keep = bb.copy()
        got = m.call(dout.analyze_bit_activity, bb, create_plot=False)
        want = np.array([100.0 * sum(int(v) for v in b[:, k]) / N for k in range(M)])
        m.close("activity", got, want, atol=1e-4 if dt is np.float32 else 1e-10, what="share of ones per bit (%s)" % np.dtype(dt))
        m.equal("input kept", bb, keep, "caller's bits")
        m.close("activity", m.call(dout.analyze_bit_activity, b.tolist(), create_plot=False), want, atol=1e-10, what="bits as nested lists")
        m.close("legacy names", m.call(dout.check_bit_activity, b, create_plot=False), want, atol=1e-10, what="legacy name")
        fig, ax = plt.subplots()
        m.close("plot independence", m.call(dout.analyze_bit_activity, bb, create_plot=True, ax=ax), got, atol=0, what="activity with a plot")
        hs = np.array([p.get_height() for p in ax.patches])
        m.check("plot independence", hs.shape == want.shape and np.allclose(hs, want, atol=1e-3), "bar heights differ from the activity")
        plt.close(fig)
    elif kind == "ovf":
        exact = rng.random() < 0.5
        wide = rng.random() < 0.25
        if wide:
            # long binary words: one LSB short of full is not full
            exact, M, N = True, gen.ri(rng, 16, 26), gen.ri(rng, 20, 60)
            w = 2 ** np.arange(M - 1, -1, -1)
            b = bitmat(rng, N, M)
            k = gen.ri(rng, 0, M - 1)
            near = rng.random(N)
            b[np.ix_(near < 0.3, np.arange(k, M))] = 1
            b[np.ix_(near > 0.7, np.arange(k, M))] = 0
            b[near < 0.2, M - 1] = 0
            b[near > 0.8, M - 1] = 1
        elif exact:
            w = rng.integers(-20, 60, M)
            w[-1] = gen.ri(rng, 1, 9)
            cs = np.cumsum(w[::-1])[::-1]
            if np.any(cs == 0):
                w = np.abs(w) + 1
        else:
            w = wlist(rng, M)
        bb = b.astype(gen.pick(rng, [int, np.int64, float, bool, np.uint8]))
        keep = bb.copy()
        lo, hi, z, o = (np.asarray(v) for v in m.call(dout.analyze_overflow, bb, w, create_plot=False))
        m.equal("input kept", bb, keep, "caller's bits")
        for k in range(M):
            if exact:
                tot = int(sum(int(v) for v in w[k:]))
                seg = [sum(int(x) * int(v) for x, v in zip(row[k:], w[k:])) for row in b]
                r = np.array(seg) / tot
                wz = 100.0 * sum((s <= 0) if tot > 0 else (s >= 0) for s in seg) / N
                wo = 100.0 * sum((s >= tot) if tot > 0 else (s <= tot) for s in seg) / N
            else:  # positive weights: empty and full segments are the only ones at the ends
                r = (b[:, k:] * w[k:]).sum(1) / w[k:].sum()
                wz = 100.0 * np.all(b[:, k:] == 0, axis=1).mean()
                wo = 100.0 * np.all(b[:, k:] == 1, axis=1).mean()
            m.close("segment range", [lo[k], hi[k]], [r.min(), r.max()], atol=1e-9, rtol=1e-9, what="lowest and highest residue of segment %d of %d" % (k, M))
            m.close("overflow share", [z[k], o[k]], [wz, wo], atol=1e-9, what="share of empty and full residues of segment %d of %d" % (k, M))
        m.close("legacy names", np.stack(m.call(dout.check_overflow, bb, w, disp=0)), np.stack([lo, hi, z, o]), atol=0, what="legacy name")
        if rng.random() < 0.2:
            fig, ax = plt.subplots()
            m.close("plot independence", np.stack(m.call(dout.analyze_overflow, bb, w, ofb=gen.ri(rng, 1, M + 1), create_plot=True, ax=ax)), np.stack([lo, hi, z, o]), atol=0, what="overflow shares with a plot")
            plt.close(fig)
    elif kind == "radix":
        w = wlist(rng, M)
        form = gen.pick(rng, ["plain", "plain", "trim", "neg", "three"])
        if form == "trim":
            w = np.concatenate([w, w.min() * rng.uniform(0.01, 0.3, gen.ri(rng, 1, 3))])
        if form == "neg":
            w = w * rng.choice([-1.0, 1.0], len(w))
        if form == "three":
            w = np.array([24.0, 12.0, 4.0, 2.0, 1.0]) * 2.0 ** gen.ri(rng, -4, 5)
        if rng.random() < 0.3:
            w = rng.permutation(w)
        keep = w.copy()
        r = m.call(dout.analyze_weight_radix, w, create_plot=False)
        a = np.abs(w)
        m.check("radix", np.isnan(r["radix"][0]), "first radix is not marked undefined")
        m.close("radix", r["radix"][1:], a[:-1] / a[1:], rtol=1e-12, what="ratio of neighbouring weights")
        s = np.sort(a)[::-1]
        q = s[:-1] / s[1:]
        if np.any(np.abs(q / 3 - 1) < 1e-9) and form != "three":
            return m.skip("ratio at the limit")
        k = next((i for i, v in enumerate(q) if v >= 3), len(q))
        sig = s[:k + 1]
        m.close("effective resolution", r["effres"], np.log2(sig.sum() / sig.min() + 1), rtol=1e-10, what="resolution of the significant weights (%s)" % form)
        err = lambda sc: np.sqrt(np.mean((sig * sc - np.round(sig * sc)) ** 2))
        top = round(s[0] / sig[-1])
        cand = [1.0 / sig[-1]] + [v / s[0] for v in range(max(1, int(np.ceil(top * 0.5)) + 1), int(np.floor(top * 1.5)))]
        best = min(err(x) for x in cand[:2000])
        m.check("integer scale", err(r["wgtsca"]) <= best + 1e-9, lambda: "rounding error at the reported scale is %.4g, %.4g is possible" % (err(r["wgtsca"]), best))
        if top < 1000:
            m.check("integer scale", 0.45 * top - 1 <= s[0] * r["wgtsca"] <= 1.55 * top + 1, "scale far from one least weight")
        g = 2.0 ** gen.ri(rng, -10, 11)
        r2 = m.call(dout.analyze_weight_radix, w * g, create_plot=False)
        m.close("scale equivariance", [r2["effres"], r2["wgtsca"] * g], [r["effres"], r["wgtsca"]], rtol=1e-9, what="resolution and scale of scaled weights")
        r3 = m.call(dout.analyze_weight_radix, -w[::-1], create_plot=False)
        m.close("order independence", r3["effres"], r["effres"], rtol=1e-12, what="resolution of reversed, negated weights")
        m.close("order independence", r3["radix"][1:], (1 / np.asarray(r["radix"][1:]))[::-1], rtol=1e-9, what="radix of reversed weights")
        m.close("legacy names", m.call(dout.plot_weight_radix, list(w), create_plot=False), r["radix"], atol=0, what="legacy name")
        m.equal("input kept", w, keep, "caller's weights")
        if rng.random() < 0.2:
            fig, ax = plt.subplots()
            rp = m.call(dout.analyze_weight_radix, w, create_plot=True, ax=ax)
            m.close("plot independence", [rp["effres"], rp["wgtsca"]], [r["effres"], r["wgtsca"]], atol=0, what="values with a plot")
            plt.close(fig)
    elif kind == "resid":
        w = wlist(rng, M)
        if rng.random() < 0.5:
            w = rng.permutation(w) * rng.choice([-1.0, 1.0, 1.0], M)
        sig = rng.standard_normal(N)
        use = rng.random() < 0.7
        pairs = [(gen.ri(rng, 0, M + 1), gen.ri(rng, 0, M + 1)) for _ in range(gen.ri(rng, 1, 6))] if rng.random() < 0.6 else None
        kw = dict(create_plot=False)
        if use:
            kw["weights"] = w
        if pairs:
            kw["pairs"] = pairs
        ks, kb = sig.copy(), b.copy()
        r = m.call(dout.plot_residual_scatter, sig, b, **kw)
        ww = w if use else 2.0 ** np.arange(M - 1, -1, -1)
        want = pairs or [(i, M) for i in range(M)]
        m.equal("residuals", [tuple(p) for p in r["pairs"]], want, "pairs")

        def res(k):
            out = sig.copy()
            for j in range(k):
                out = out - b[:, j] * ww[j]
            return out
        for (x, y), rx, ry in zip(want, r["residuals_x"], r["residuals_y"]):
            m.close("residuals", [rx, ry], [res(x), res(y)], atol=1e-9 * max(1, np.abs(ww).sum()), what="residuals after %d and %d bits" % (x, y))
        m.equal("input kept", [ks.tolist(), kb.tolist()], [sig.tolist(), b.tolist()], "caller's data")
        if rng.random() < 0.25:
            plt.close("all")
            rp = m.call(dout.plot_residual_scatter, sig, b, **dict(kw, create_plot=True))
            fig = plt.gcf()
            axs = [a for a in fig.axes if a.get_visible()]
            m.equal("plot independence", len(axs), len(want), "number of panels")
            for a, rx, ry in zip(axs, rp["residuals_x"], rp["residuals_y"]):
                if a.collections:
                    m.check("plot independence", np.allclose(np.asarray(a.collections[0].get_offsets()), np.column_stack([rx, ry])), "plotted points differ from the residuals")
            plt.close("all")
    elif kind == "sweep":
        N = gen.pick(rng, [512, 600])
        B = gen.ri(rng, 6, 10)
        fb = gen.coprime_bin(rng, N, 20, N // 3)
        bits = sarsim.sine_bits(rng, sarsim.weights(rng, B), N, fb / N, amp=0.48, noise=2e-3)
        if bits.std(axis=0).min() == 0:
            return m.skip("bit that never toggles")
        if rng.random() < 0.4:
            # some bits wired inverted: their calibrated weights are negative
            flip = rng.random(bits.shape[1]) < 0.4
            bits = np.where(flip, 1 - bits, bits)
        win = gen.pick(rng, ["hamming", "hann", "boxcar"])
        osr = gen.pick(rng, [1, 1, 2]) if fb < N // 5 else 1
        kw = dict(freq=fb / N, harmonic_order=gen.pick(rng, [1, 3]), osr=osr, create_plot=False)
        if win != "hamming":
            kw["win_type"] = win
        e, nv = m.call(dout.analyze_enob_sweep, bits, **kw)
        m.equal("bit sweep", np.asarray(nv), np.arange(1, bits.shape[1] + 1), "bit counts")
        cal = calibrate_weight_sine(bits, freq=fb / N, harmonic_order=kw["harmonic_order"])
        want = [analyze_spectrum(bits[:, :k] @ np.asarray(cal["weight"])[:k], osr=osr, win_type=win, create_plot=False)["enob"] for k in range(1, bits.shape[1] + 1)]
        m.close("bit sweep", e, want, atol=1e-6, what="ENOB of the first k calibrated bits (%s window)" % win)
        t = m.call(dout.calibrate_weight_sine, bits, freq=fb / N, order=kw["harmonic_order"])
        m.close("legacy names", t[0], cal["weight"], atol=1e-12, what="legacy calibration: weights")
        m.close("legacy names", [float(np.ravel(t[1])[0]), float(np.ravel(t[5])[0])], [float(np.ravel(cal["offset"])[0]), float(np.ravel(cal["refined_frequency"])[0])], atol=1e-12, what="legacy calibration: offset and frequency")
        m.close("legacy names", np.asarray(t[2]), np.asarray(cal["calibrated_signal"]), atol=1e-12, what="legacy calibration: record")
    else:
        m.expect_raise("rejects", ValueError, dout.analyze_overflow, b, np.ones(M + gen.pick(rng, [-1, 1])), create_plot=False)
        m.expect_raise("rejects", ValueError, dout.plot_residual_scatter, np.zeros(N + gen.pick(rng, [-1, 1])), b, create_plot=False)
    m.nontrivial()
    m.sample(kind=kind, N=N, bits=M)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
