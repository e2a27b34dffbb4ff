"""C15 weight calibration with stuck bits, duplicated bits and several records."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import sarsim
from adctoolbox.calibration import calibrate_weight_sine

PROPERTY = "C15"
RULE = ("bit matrices with stuck, duplicated or complemented columns and batches of records with different frequencies, amplitudes, offsets and lengths; "
        "non-trivial = rank-deficient matrix or more than one record")
REQUIRED_ORACLES = ["stuck bit", "duplicate bit", "healthy bits unchanged", "records combined", "record scale", "record order", "complement bit", "per-record fields", "record layout", "rarely used bit"]
MIN_NONTRIVIAL = {"quick": 60, "thorough": 500}


def cases(rng, tier):
    for i in range(840 if tier == "quick" else 4200):
        yield {"seed": gen.seed_of(rng), "kind": ["stuck", "dup", "multi", "multi", "mixed", "comp", "rare"][i % 7]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    B = gen.ri(rng, 6, 12)
    w = sarsim.weights(rng, B, mismatch=0.01)
    N = gen.length(rng, [1024, 2047, 3000], 0.015, [20000, 33000, 66000])
    q = w[-1]
    tolw = 0.5 * q + 1e-3 * w.max()
    if kind in ("stuck", "dup", "mixed", "comp"):
        f = 0.25
        while not gen.rich_phase(f, N):
            f = gen.coprime_bin(rng, N, 20, N // 2 - 20) / N
        bits = sarsim.sine_bits(rng, w, N, f, amp=0.48)
        if np.linalg.matrix_rank(np.column_stack([bits, np.ones(N)])) < B + 1:
            m.skip("degenerate bit matrix")
            return
        base = np.asarray(m.call(calibrate_weight_sine, bits, freq=f)["weight"])
        cols, tags = [], []
        nominal = []
        for j in range(B):
            cols.append(bits[:, j])
            tags.append(("bit", j))
            nominal.append(w[j] / w[-1])
        pos = lambda: gen.ri(rng, 0, len(cols) + 1)  # noqa: E731
        if kind in ("stuck", "mixed"):
            for v in gen.pick(rng, [(0,), (1,), (0, 1), (1, 1)]):
                p = pos()
                cols.insert(p, np.full(N, v))
                tags.insert(p, ("stuck", v))
                nominal.insert(p, float(gen.logu(rng, 0.5, 100)))
        if kind in ("dup", "mixed", "comp"):
            j = gen.ri(rng, 0, B)
            at = [i for i, t in enumerate(tags) if t == ("bit", j)][0]
            p = gen.ri(rng, 0, len(cols) + 1)
            ratio = rng.uniform(0.2, 0.9) if rng.random() < 0.6 else 1.0
            if kind == "comp":
                ratio = rng.uniform(0.2, 0.7)
            cols.insert(p, (1 - bits[:, j]) if kind == "comp" else bits[:, j].copy())
            tags.insert(p, ("dup", j))
            nominal.insert(p, nominal[at] * ratio)
        X = np.column_stack(cols)
        if rng.random() < 0.3:
            X = X.astype(gen.pick(rng, [bool, np.int8, np.float32, np.uint8]))
        r = m.call(calibrate_weight_sine, X, freq=f, nominal_weights=nominal)
        wt = np.asarray(r["weight"], float)
        eff = {}
        for i, t in enumerate(tags):
            if t[0] == "stuck":
                m.close("stuck bit", wt[i], 0.0, atol=1e-9 * np.max(np.abs(base)), what="weight of a bit stuck at %d" % t[1])
            else:
                sgn = -1.0 if (t[0] == "dup" and kind == "comp") else 1.0
                eff[t[1]] = eff.get(t[1], 0.0) + sgn * wt[i]
        m.close("healthy bits unchanged", [eff[j] for j in range(B)], base, atol=1e-6, what="effective weight of each independent bit (%s)" % kind)
        for i, t in enumerate(tags):
            if t[0] == "dup":
                k = [a for a, u in enumerate(tags) if u == ("bit", t[1])][0]
                m.close("complement bit" if kind == "comp" else "duplicate bit", wt[i] * nominal[k], wt[k] * nominal[i], atol=1e-8 * max(nominal), what="duplicated bits share the weight in the nominal ratio")
        err = np.asarray(r["error"][0])
        sig = X.astype(float) @ wt
        m.close("per-record fields", np.asarray(r["calibrated_signal"][0]), sig, atol=1e-9, what="calibrated signal = bits x weights")
        resid = sig - np.asarray(r["ideal"][0]) - err
        m.close("per-record fields", resid, np.full(N, resid.mean()), atol=1e-9, what="signal - ideal - error is a constant")
        snr0 = 10 * np.log10(0.5 / np.mean(err ** 2))
        ok = snr0 > 6.02 * np.log2(1 / q) - 4
        m.check("duplicate bit", ok, lambda: "residual only %.1f dB below the tone with %s columns" % (snr0, kind))
        m.nontrivial()
        m.sample(kind=kind, bits=B, columns=len(cols), weights=wt)
        return
    if kind == "rare":
        # a bit that is set in only a few samples, next to a bit that never moves, keeps its weight
        f = 0.25
        while not gen.rich_phase(f, N):
            f = gen.coprime_bin(rng, N, 20, N // 2 - 20) / N
        x = 0.5 + 0.48 * np.sin(2 * np.pi * f * np.arange(N) + rng.uniform(0, 6.28))
        W = rng.uniform(0.1, 0.25)
        k = gen.ri(rng, 1, 7)
        at = rng.choice(np.nonzero(x > 0.5)[0], size=k, replace=False)
        flag = np.zeros(N)
        flag[at] = 1
        core = sarsim.convert(x - W * flag, w)
        p = gen.ri(rng, 0, B + 1)
        X = np.column_stack([core[:, :p], flag, core[:, p:]])
        truth = np.concatenate([w[:p], [W], w[p:]])
        if np.linalg.matrix_rank(np.column_stack([X, np.ones(N)])) < B + 2:
            return m.skip("degenerate bit matrix")
        if rng.random() < 0.7:
            d = gen.ri(rng, 0, B + 2)
            X = np.insert(X, d, gen.ri(rng, 0, 2), axis=1)
            truth = np.insert(truth, d, 0.0)
        nom = np.where(truth > 0, truth, gen.logu(rng, 0.01, 1))
        r = m.call(calibrate_weight_sine, X, freq=f, nominal_weights=nom)
        m.close("rarely used bit", np.asarray(r["weight"]) * 0.48, truth, atol=tolw + 0.6 * q, what="weights with a bit set in %d of %d samples" % (k, N))
        m.nontrivial()
        m.sample(kind=kind, bits=B, set_in=k, weights=r["weight"])
        return
    K = gen.ri(rng, 2, 5) if rng.random() < 0.85 else gen.ri(rng, 5, 10)
    fs, amps, dcs, sets = [], [], [], []
    uneven = rng.random()
    for _ in range(K):
        n_ = N + gen.ri(rng, 0, 500) if uneven < 0.5 else int(N * rng.uniform(0.5, 3))
        f_ = 0.25
        while not gen.rich_phase(f_, n_):
            f_ = gen.coprime_bin(rng, n_, 20, n_ // 2 - 20) / n_
        a_ = rng.uniform(0.4, 0.48)
        d_ = 0.5 + rng.uniform(-1, 1) * (0.49 - a_)
        fs.append(f_)
        amps.append(a_)
        dcs.append(d_)
        sets.append(sarsim.sine_bits(rng, w, n_, f_, amp=a_, dc=d_))
    H = gen.pick(rng, [1, 1, 2, 3])
    r = m.call(calibrate_weight_sine, sets, freq=fs, harmonic_order=H)
    wt = np.asarray(r["weight"], float)
    m.close("records combined", wt * amps[0], w, atol=tolw, what="weights from %d records" % K)
    m.close("records combined", r["refined_frequency"], fs, atol=0, what="explicit frequencies held")
    m.equal("per-record fields", [len(r[k]) for k in ("calibrated_signal", "ideal", "error", "snr_db", "enob")], [K] * 5, "one entry per record")
    for k in range(K):
        sig, ideal, err = (np.asarray(r[x][k]) for x in ("calibrated_signal", "ideal", "error"))
        m.close("per-record fields", sig, sets[k] @ wt, atol=1e-9, what="calibrated signal of record %d" % k)
        d = sig - ideal - err
        m.close("per-record fields", d, np.full(len(d), d.mean()), atol=1e-9, what="signal - ideal - error is this record's offset")
        if k == 0:
            m.close("per-record fields", d.mean(), r["offset"], atol=1e-9, what="reported offset is that of the first record")
        m.close("record scale", np.sqrt(2 * np.mean(ideal ** 2)), amps[k] / amps[0], atol=(2e-2 if H > 1 else 5e-3) + 0.5 * q, what="amplitude of record %d relative to the first" % k)
        m.close("record scale", d.mean() * amps[0], dcs[k] - 0.0, atol=q + 2e-3, what="offset of record %d" % k)
        s = 10 * np.log10(np.mean(ideal ** 2) / np.mean(err ** 2))
        m.close("per-record fields", r["snr_db"][k], s, atol=1e-6, what="SNR of record %d" % k)
        m.close("per-record fields", r["enob"][k], (s - 1.76) / 6.02, atol=1e-6, what="ENOB of record %d" % k)
        m.check("records combined", s > 6.02 * np.log2(1 / q) - 5, lambda: "record %d calibrates to only %.1f dB" % (k, s))
    turned = [np.ascontiguousarray(s.T) if rng.random() < 0.5 else s for s in sets]
    rt = m.call(calibrate_weight_sine, turned, freq=fs, harmonic_order=H)
    m.close("record layout", rt["weight"], wt, atol=1e-9, what="weights when some records are bits-by-samples")
    for k in range(K):
        m.close("record layout", rt["error"][k], r["error"][k], atol=1e-9, what="error of record %d when some records are bits-by-samples" % k)
    p = rng.permutation(K)
    r2 = m.call(calibrate_weight_sine, [sets[i] for i in p], freq=[fs[i] for i in p], harmonic_order=H)
    w2 = np.asarray(r2["weight"])
    m.close("record order", w2 * amps[p[0]], wt * amps[0], atol=2e-3 * w.max() + 0.3 * q, what="weights after reordering the records")
    shared = m.call(calibrate_weight_sine, [sets[0], sets[0]], freq=fs[0], harmonic_order=1)
    one = m.call(calibrate_weight_sine, sets[0], freq=fs[0], harmonic_order=1)
    m.close("record order", shared["weight"], one["weight"], atol=1e-4 * w.max() + 0.05 * q, what="weights from a record given twice")
    m.nontrivial()
    m.sample(kind="multi", records=K, bits=B, harmonic_order=H, worst_weight_error_lsb=float(np.max(np.abs(wt * amps[0] - w)) / q))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
