"""C14 weight calibration finds the input frequency when it is unknown or only approximately known."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import sarsim
from adctoolbox.calibration import calibrate_weight_sine

PROPERTY = "C14"
RULE = ("redundant SAR records with non-coherent frequencies; frequency absent, zero, or off by up to 0.3 bin with refinement requested; one or several "
        "records; non-trivial = the starting frequency differs from the true one")
REQUIRED_ORACLES = ["refined frequency", "weights", "automatic", "no search", "per-record frequency", "search beats start"]
MIN_NONTRIVIAL = {"quick": 20, "thorough": 120}


def cases(rng, tier):
    for i in range(100 if tier == "quick" else 500):
        yield {"seed": gen.seed_of(rng), "kind": ["near", "auto", "multi", "harm", "nosearch"][i % 5]}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    B = gen.ri(rng, 8, 13)
    w = sarsim.weights(rng, B, mismatch=0.01)
    N = gen.length(rng, [1024, 2000, 2048], 0.012, [20000, 33000, 66000])
    q = w[-1]
    tolw = 0.5 * q + 1e-3 * w.max()
    tolf = 0.3 * q / N + 1e-9

    def freq(lo=None, hi=None):
        # a record of only a few distinct phases cannot determine all weights
        while True:
            k = gen.ri(rng, lo or 30, hi or N // 2 - 30)
            v = (k + rng.uniform(-0.5, 0.5)) / N
            if gen.rich_phase(v, N):
                return v

    f = freq()
    if kind in ("near", "nosearch"):
        bits = sarsim.sine_bits(rng, w, N, f, amp=0.485)
        start = f + rng.uniform(0.05, 0.3) * gen.pick(rng, [-1, 1]) / N
        r0 = m.call(calibrate_weight_sine, bits, freq=start)
        m.close("no search", r0["refined_frequency"], start, atol=0, what="explicit frequency without refinement")
        if kind == "nosearch":
            r = m.call(calibrate_weight_sine, bits, freq=start, force_search=False)
            m.close("no search", r["refined_frequency"], start, atol=0, what="refinement disabled")
            # a frequency that is only estimated is not refined either when refinement is switched off
            g = freq(30, int(0.16 * N))
            other = sarsim.sine_bits(rng, w, N, g, amp=0.485)
            e1, e2 = (m.call(calibrate_weight_sine, other, force_search=False, max_iter=k) for k in (1, 40))
            m.close("no search", e1["refined_frequency"], e2["refined_frequency"], atol=0, what="estimated frequency, refinement disabled, 1 and 40 iterations allowed")
            m.close("no search", e1["refined_frequency"] * N, g * N, atol=0.5, what="estimated frequency in bins")
            e3 = m.call(calibrate_weight_sine, other, freq=e1["refined_frequency"])
            m.close("no search", e3["weight"], e1["weight"], atol=1e-9, what="weights at the estimated frequency")
        else:
            r = m.call(calibrate_weight_sine, bits, freq=start, force_search=True)
            m.close("refined frequency", r["refined_frequency"], f, atol=tolf, what="frequency refined from %.3f bins away (%d bits, N=%d)" % ((start - f) * N, B, N))
            m.close("weights", np.asarray(r["weight"]) * 0.485, w, atol=tolw, what="weights with a refined frequency")
            m.check("search beats start", r["snr_db"] > r0["snr_db"] + 3, lambda: "refinement moved SNR from %.1f to %.1f dB" % (r0["snr_db"], r["snr_db"]))
            it = m.call(calibrate_weight_sine, bits, freq=start, force_search=True, learning_rate=1.0)
            m.close("refined frequency", it["refined_frequency"], f, atol=tolf, what="frequency refined with full steps")
    elif kind == "auto":
        f = freq(30, int(0.16 * N))
        bits = sarsim.sine_bits(rng, w, N, f, amp=0.49)
        which = gen.pick(rng, [None, 0, 0.0])
        r = m.call(calibrate_weight_sine, bits, freq=which)
        m.close("automatic", r["refined_frequency"], f, atol=tolf, what="frequency found automatically (freq=%r)" % which)
        m.close("weights", np.asarray(r["weight"]) * 0.49, w, atol=tolw, what="weights with automatic frequency")
        rf = m.call(calibrate_weight_sine, bits)
        m.close("automatic", rf["refined_frequency"], r["refined_frequency"], rtol=1e-12, what="default and explicit automatic mode")
    elif kind == "harm":
        f = freq(int(0.03 * N), int(0.15 * N))
        bits = sarsim.sine_bits(rng, w, N, f, amp=0.47, h2=0.01, h3=0.006)
        start = f + rng.uniform(0.05, 0.25) * gen.pick(rng, [-1, 1]) / N
        r = m.call(calibrate_weight_sine, bits, freq=start, force_search=True, harmonic_order=3)
        m.close("refined frequency", r["refined_frequency"], f, atol=tolf, what="frequency refined with harmonics excluded")
        m.close("weights", np.asarray(r["weight"]) * 0.47, w, atol=tolw, what="weights with harmonics excluded")
    else:
        K = gen.ri(rng, 2, 4)
        mode = gen.pick(rng, ["auto", "near"])
        fs = [freq(30, int(0.16 * N)) if mode == "auto" else freq() for _ in range(K)]
        Ns = [N + gen.ri(rng, 0, 300) for _ in range(K)]
        opt = {}
        if mode == "near" and rng.random() < 0.6:
            # records of very different length, the first the longest: each has its own frequency resolution; full steps, few allowed
            Ns = [2 * N + gen.ri(rng, 0, N)] + [int(n_ * gen.pick(rng, [0.4, 0.7])) for n_ in Ns[1:]]
            opt = dict(learning_rate=1.0, max_iter=15)
        amps = [rng.uniform(0.44, 0.49) for _ in range(K)]
        sets = [sarsim.sine_bits(rng, w, n_, f_, amp=a_) for n_, f_, a_ in zip(Ns, fs, amps)]
        H = gen.pick(rng, [1, 1, 2])
        if mode == "auto":
            r = m.call(calibrate_weight_sine, sets, harmonic_order=H)
        else:
            start = np.array([f_ + rng.uniform(-0.25, 0.25) / n_ * (0.6 if opt else 1.0) for f_, n_ in zip(fs, Ns)])
            keep = start.copy()
            r = m.call(calibrate_weight_sine, sets, freq=start, force_search=True, harmonic_order=H, **opt)
            m.equal("per-record frequency", start, keep, "caller's starting frequencies")
        m.close("per-record frequency", (np.asarray(r["refined_frequency"]) - fs) * Ns, np.zeros(K), atol=(tolf * 1.5) * N, what="frequency error in bins of each of %d records (%s)" % (K, mode))
        m.close("weights", np.asarray(r["weight"]) * amps[0], w, atol=tolw, what="weights shared by %d records" % K)
    m.nontrivial(kind != "nosearch")
    m.sample(kind=kind, bits=B, N=N, f=f, found=r["refined_frequency"])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
