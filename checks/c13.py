"""C13 sine-based weight calibration at a known frequency recovers the true bit weights."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import sarsim
from adctoolbox.calibration import calibrate_weight_sine, calibrate_weight_sine_lite
import adctoolbox.dout as dout

PROPERTY = "C13"
RULE = ("bit matrices from an independent redundant SAR with random mismatch, 6-13 bits, random amplitude/offset/phase/frequency; "
        "non-trivial = every bit toggles and weights differ from binary")
REQUIRED_ORACLES = ["weights", "bit order", "transposed", "complement", "column scale", "harmonics", "consistency", "optimal", "frequency held", "lite", "legacy", "rejects", "enob"]
MIN_NONTRIVIAL = {"quick": 50, "thorough": 400}


def cases(rng, tier):
    for i in range(1260 if tier == "quick" else 6300):
        yield {"seed": gen.seed_of(rng), "kind": ["base", "perm", "comp", "harm", "scale", "lite", "rand"][i % 7]}


def setup(rng, **kw):
    B = gen.ri(rng, 6, 14) if rng.random() < 0.85 else gen.ri(rng, 17, 22)
    w = sarsim.weights(rng, B, mismatch=rng.uniform(0, 0.03))
    N = gen.length(rng, [1500, 2048, 3001, 4096], 0.03)
    while True:
        b = gen.coprime_bin(rng, N, 30, N // 2 - 30)
        f = b / N if rng.random() < 0.6 else rng.uniform(0.02, 0.48)
        if gen.rich_phase(f, N):
            break
    amp = rng.uniform(0.42, 0.49)
    dc = 0.5 + rng.uniform(-1, 1) * (0.495 - amp)
    bits = sarsim.sine_bits(rng, w, N, f, amp=amp, dc=dc, **kw)
    return B, w, N, f, amp, dc, bits


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    extra = dict(h2=0.01, h3=-0.008) if kind == "harm" else {}
    if kind == "rand":
        return run_random(c, m, rng)
    if kind == "harm":
        B = gen.ri(rng, 8, 12)
        w = sarsim.weights(rng, B)
        N = 4096
        f = 0.25
        while not gen.rich_phase(f, N):
            f = gen.coprime_bin(rng, N, 60, N // 6 - 10) / N
        amp, dc = 0.47, 0.5
        bits = sarsim.sine_bits(rng, w, N, f, amp=amp, dc=dc, **extra)
    else:
        B, w, N, f, amp, dc, bits = setup(rng)
    if np.any(bits.min(0) == bits.max(0)) or np.linalg.matrix_rank(np.column_stack([bits, np.ones(N)])) < B + 1:
        m.skip("degenerate bit matrix")
        return
    H = 3 if kind == "harm" else gen.pick(rng, [1, 1, 2])
    r = m.call(calibrate_weight_sine, bits, freq=f, harmonic_order=H)
    wt = np.asarray(r["weight"], float)
    q = w[-1]  # one LSB of the converter
    tol = 0.35 * q + 2e-4 * w.max()
    m.close("weights" if kind != "harm" else "harmonics", wt * amp, w, atol=tol, what="recovered weights, %d bits, N=%d, f=%.5f" % (B, N, f))
    sig = np.asarray(r["calibrated_signal"][0])
    ideal = np.asarray(r["ideal"][0])
    err = np.asarray(r["error"][0])
    m.close("consistency", sig, bits @ wt, atol=1e-9, what="calibrated signal = bits x weights")
    m.close("consistency", err, sig - r["offset"] - ideal, atol=1e-9, what="error = signal - offset - ideal")
    t = np.arange(N)
    ph = 2 * np.pi * f * t
    D = np.column_stack([np.cos(h * ph) for h in range(1, H + 1)] + [np.sin(h * ph) for h in range(1, H + 1)])
    co, *_ = np.linalg.lstsq(D, ideal, rcond=None)
    m.close("consistency", D @ co, ideal, atol=1e-8, what="ideal signal is a sine series at the given frequency")
    m.close("consistency", np.hypot(co[0], co[H]), 1.0, atol=1e-8, what="fundamental magnitude is normalised to 1")
    m.check("consistency", wt.sum() >= 0, "weights sum is negative")
    snr = 10 * np.log10(np.mean(ideal ** 2) / np.mean(err ** 2))
    m.close("enob", r["snr_db"], snr, atol=1e-6, what="reported SNR")
    m.close("enob", r["enob"], (snr - 1.76) / 6.02, atol=1e-6, what="reported ENOB")
    # with the true weights the same record reaches this residual; the calibration must not do worse
    true_sig = bits @ w
    Dt = np.column_stack([D, np.ones(N)])
    rt = true_sig - Dt @ np.linalg.lstsq(Dt, true_sig, rcond=None)[0]
    true_snr = 10 * np.log10((amp ** 2 / 2) / np.mean(rt ** 2))
    m.check("optimal", r["snr_db"] > true_snr - 0.2, lambda: "calibrated SNR %.2f dB, the true weights give %.2f dB" % (r["snr_db"], true_snr))
    m.close("optimal", bits.T @ err / N, np.zeros(B), atol=1e-7, what="error is uncorrelated with every bit")
    m.close("frequency held", r["refined_frequency"], f, atol=0, what="explicit frequency stays fixed")
    if kind == "perm":
        p = rng.permutation(B)
        r2 = m.call(calibrate_weight_sine, bits[:, p], freq=f, harmonic_order=H)
        m.close("bit order", r2["weight"], wt[p], atol=1e-7, what="weights after reordering the bits")
        r3 = m.call(calibrate_weight_sine, np.ascontiguousarray(bits.T), freq=f, harmonic_order=H)
        m.close("transposed", r3["weight"], wt, atol=1e-8, what="weights from a bits-by-samples matrix")
        r4 = m.call(calibrate_weight_sine, [bits], freq=f, harmonic_order=H)
        m.close("transposed", r4["weight"], wt, atol=1e-10, what="one-element list")
        # a record only a little longer than it is wide is still samples by bits
        n = gen.ri(rng, B + 6, 3 * B + 6)
        few = rng.integers(0, 2, (n, B))
        if np.linalg.matrix_rank(np.column_stack([few, np.ones(n)])) == B + 1:
            ra = m.call(calibrate_weight_sine, few, freq=f)
            rb = m.call(calibrate_weight_sine, np.ascontiguousarray(few.T), freq=f)
            m.equal("transposed", [np.size(ra["weight"]), np.size(ra["error"][0])], [B, n], "%d samples of %d bits: number of weights and samples" % (n, B))
            m.close("transposed", rb["weight"], ra["weight"], rtol=1e-6, atol=1e-9, what="weights of a short record, either way round")
    if kind == "comp":
        r2 = m.call(calibrate_weight_sine, 1 - bits, freq=f, harmonic_order=H)
        m.close("complement", r2["weight"], wt, atol=1e-7, what="weights from complemented bits")
        m.close("complement", np.asarray(r2["ideal"][0]), -ideal, atol=1e-7, what="ideal signal from complemented bits")
        r3 = m.call(calibrate_weight_sine, bits[::-1].copy(), freq=f, harmonic_order=H)
        m.close("complement", r3["weight"], wt, atol=2e-3 * wt.max(), what="weights from the time-reversed record")
    if kind == "scale":
        g = 10.0 ** rng.integers(-3, 5, B) * rng.uniform(0.5, 2, B)
        r2 = m.call(calibrate_weight_sine, bits * g, freq=f, harmonic_order=H)
        m.close("column scale", np.asarray(r2["weight"]) * g, wt, atol=1e-6, what="weights after scaling bit columns")
    if kind == "lite":
        # the lightweight solver is referenced to the cosine quadrature and documents that it needs well-conditioned data
        cosine = abs(np.hypot(co[0], 0) / np.hypot(co[0], co[H]))
        if cosine > 0.25:
            lw = m.call(calibrate_weight_sine_lite, bits, f)
            m.close("lite", np.asarray(lw) * amp, w, atol=tol + 1e-3 * w.max(), what="lightweight calibration")
            m.close("lite", lw, m.call(calibrate_weight_sine, bits, freq=f)["weight"], atol=tol / amp + 1e-3 * wt.max(), what="lightweight versus full calibration")
            # with the first bit wired upside down its weight turns negative; the sum decides the sign of the set
            inv = bits.copy()
            inv[:, 0] = 1 - inv[:, 0]
            iw = np.concatenate([[-w[0]], w[1:]])
            if abs(iw.sum()) > 0.05:
                m.close("lite", m.call(calibrate_weight_sine_lite, inv, f), np.sign(iw.sum()) * np.concatenate([[-lw[0]], lw[1:]]), atol=1e-6, what="lightweight calibration with the first bit inverted")
        m.expect_raise("rejects", ValueError, calibrate_weight_sine_lite, bits, 0.7)
        lt = m.call(dout.calibrate_weight_sine, bits, freq=f, order=H)
        m.close("legacy", lt[0], wt, atol=1e-12, what="legacy tuple: weights")
        m.close("legacy", [lt[1], lt[5]], [r["offset"], f], atol=1e-12, what="legacy tuple: offset, frequency")
        m.close("legacy", np.asarray(lt[4][0]), err, atol=1e-12, what="legacy tuple: error")
        for bad in (0.6, 1e6, np.array([0.1, 0.7])):
            m.expect_raise("rejects", ValueError, calibrate_weight_sine, [bits, bits] if np.ndim(bad) else bits, freq=bad)
        m.expect_raise("rejects", ValueError, calibrate_weight_sine, [])
        m.expect_raise("rejects", ValueError, calibrate_weight_sine, np.zeros((0, 4)))
        m.expect_raise("rejects", ValueError, calibrate_weight_sine, [bits, bits[:, :-1]], freq=f)
        m.expect_raise("rejects", ValueError, calibrate_weight_sine, bits, freq=f, nominal_weights=np.ones(B + 1))
        m.expect_raise("rejects", ValueError, calibrate_weight_sine, [bits, bits], freq=[f, f, f])
    m.nontrivial()
    m.sample(bits=B, N=N, f=f, amplitude=amp, worst_weight_error_lsb=float(np.max(np.abs(wt * amp - w)) / q), snr=float(r["snr_db"]), snr_true_weights=float(true_snr))


def run_random(c, m, rng):
    """Compare against an independent constrained least-squares solution, cosine- and sine-referenced."""
    B, w, N, f, amp, dc, bits = setup(rng, noise=10 ** rng.uniform(-4, -2.5))
    if np.linalg.matrix_rank(np.column_stack([bits, np.ones(N)])) < B + 1:
        m.skip("degenerate bit matrix")
        return
    H = gen.ri(rng, 1, 4) if rng.random() < 0.7 else gen.ri(rng, 4, 9)
    at = np.arange(0, H + 1) * f
    at = np.sort(np.append(np.abs(at - np.round(at)), 0.5))
    if np.min(np.diff(at)) * N < 3:
        H = 1
    r = m.call(calibrate_weight_sine, bits, freq=f, harmonic_order=H)
    ph = 2 * np.pi * f * np.outer(np.arange(N), np.arange(1, H + 1))
    C, S = np.cos(ph), np.sin(ph)
    best = None
    for u, o in ((C, S), (S, C)):
        A = np.column_stack([bits, np.ones(N), u[:, 1:], o])
        x, *_ = np.linalg.lstsq(A, -u[:, 0], rcond=None)
        res = np.linalg.norm(A @ x + u[:, 0])
        nrm = np.sqrt(1 + x[B + 1 + H - 1] ** 2)
        sol = (res, x[:B] / nrm, -x[B] / nrm)
        if best is None or sol[0] < best[0] * (1 - 1e-6):
            best = sol if best is None or sol[0] < best[0] else best
    sgn = 1.0 if best[1].sum() >= 0 else -1.0
    # reference choice between cosine and sine is immaterial to first order; allow the noise-induced difference
    m.close("optimal", r["weight"], sgn * best[1], atol=2e-3 * np.max(np.abs(best[1])), what="weights against an independent least-squares solution")
    if H > 1:
        m.close("optimal", np.vstack([C[:, 1:].T, S[:, 1:].T]) @ np.asarray(r["error"][0]) / N, np.zeros(2 * H - 2), atol=1e-7, what="harmonics 2..%d left in the error" % H)
    m.close("weights", np.asarray(r["weight"]) * amp, w, atol=0.6 * w[-1] + 2e-2 * w.max(), what="weights from a noisy record")
    m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
