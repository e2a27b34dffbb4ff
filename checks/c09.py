"""C09 frequency planning: coherent bin selection and Nyquist folding."""
import sys
from math import gcd
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import adctoolbox as adc
from adctoolbox.fundamentals import find_coherent_frequency, fold_frequency_to_nyquist, fold_bin_to_nyquist

PROPERTY = "C09"
RULE = ("random record lengths (prime, power of two, highly composite, odd), rates, targets from DC to several Nyquist zones; "
        "non-trivial = target not already valid, or an input above Nyquist")
REQUIRED_ORACLES = ["coherent", "nearest", "frequency of bin", "no candidate", "alias identical samples", "fold range", "fold bin", "bin conversion", "all codes visited"]
MIN_NONTRIVIAL = {"quick": 200, "thorough": 3000}


def cases(rng, tier):
    for i in range(14000 if tier == "quick" else 70000):
        yield {"seed": gen.seed_of(rng), "kind": ["coh", "fold", "bin", "coh"][i % 4] if i % 50 != 49 else "none"}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "coh":
        n = gen.pick(rng, [2 ** gen.ri(rng, 4, 17), gen.ri(rng, 8, 5000), 2310, 30030, 997, 10007, 3 * 2 ** 10, 1000, 12345])
        fs = gen.logu(rng, 1, 1e11)
        zone = gen.pick(rng, [0.5, 0.5, 1.0, 3.0])
        target = rng.uniform(0, zone) * fs
        if rng.random() < 0.15:
            target = rng.uniform(0, 3.0 / n) * fs
        odd = bool(rng.random() < 0.7)
        radius = gen.pick(rng, [200, 200, 50, 20])
        t = target / fs * n
        cand = [b for b in range(max(1, int(round(t)) - radius), int(round(t)) + radius + 1) if gcd(b, n) == 1 and (b % 2 or not odd)]
        if not cand:
            m.expect_raise("no candidate", ValueError, find_coherent_frequency, fs, target, n, force_odd=odd, search_radius=radius)
            m.nontrivial()
            return
        f, b = m.call(find_coherent_frequency, fs, target, n, force_odd=odd, search_radius=radius)
        best = min(abs(x - t) for x in cand)
        m.check("coherent", b == int(b) and b > 0 and gcd(int(b), n) == 1 and (b % 2 == 1 or not odd), lambda: "bin %s is not usable with a %d-point record (odd=%s)" % (b, n, odd))
        m.check("nearest", abs(b - t) <= best + 1e-6, lambda: "bin %s is %.3f away from the target %.3f; a valid bin is %.3f away" % (b, abs(b - t), t, best))
        m.close("frequency of bin", f, b * fs / n, rtol=1e-12, what="coherent frequency of bin %s" % b)
        if n <= 512:
            ph = (int(b) * np.arange(n)) % n
            m.check("all codes visited", len(set(ph.tolist())) == n, lambda: "bin %s visits only %d of %d phases" % (b, len(set(ph.tolist())), n))
        else:
            m.by_oracle.setdefault("all codes visited", 0)
        m.nontrivial(round(t) != b or target > fs / 2)
        m.sample(n_fft=n, fs=fs, target_bin=t, chosen=int(b), odd=odd)
    elif c["kind"] == "none":
        # every odd bin near the target shares a factor with the record length
        n = 3 * 5 * 7 * 11 * 13
        k = n * gen.ri(rng, 1, 40)
        m.expect_raise("no candidate", ValueError, find_coherent_frequency, 1.0, k / n, n, force_odd=True, search_radius=0)
        m.expect_raise("no candidate", ValueError, find_coherent_frequency, 1.0, 0.0, 64, force_odd=True, search_radius=0)
        # the only usable bin lies exactly at the edge of the search
        for r_, t_, n_ in ((1, 0.0, 64), (1, 0.3, 64), (3, 2.0, 30)):
            near = [v for v in range(1, int(round(t_)) + r_ + 1) if abs(v - round(t_)) <= r_ and v % 2 and gcd(v, n_) == 1]
            f_, b_ = m.call(find_coherent_frequency, 8.0, t_ * 8.0 / n_, n_, search_radius=r_)
            m.equal("nearest", int(b_), min(near, key=lambda v: abs(v - t_)), "only bins at the edge of the search")
        # 9 of the bins around a multiple of 30030 are unusable; the first usable one is 17 away
        f_, b_ = m.call(find_coherent_frequency, 1.0, 1.0, 30030, force_odd=True, search_radius=1)
        m.check("nearest", int(b_) in (30029, 30031), lambda: "bin %s for a target of 30030" % b_)
        f_, b_ = m.call(find_coherent_frequency, 1.0, 9.0 / 30030, 30030, force_odd=True, search_radius=8)
        m.check("nearest", int(b_) in (1, 17), lambda: "bin %s for a target of 9 within 8" % b_)
        # bins 2..16 all share a factor with 30030, so 17 is the only choice within 7 of 10
        f_, b_ = m.call(find_coherent_frequency, 1.0, 10.0 / 30030, 30030, force_odd=True, search_radius=7)
        m.equal("nearest", int(b_), 17, "usable bin at the far end of the search")
        m.nontrivial()
    elif c["kind"] == "fold":
        fs = gen.logu(rng, 1e-3, 1e10)
        fin = rng.uniform(-4, 8, 20) * fs
        fin[:6] = np.array([0, 0.25, 0.5, 1.0, 1.5, 2.75]) * fs
        got = m.call(fold_frequency_to_nyquist, fin, fs)
        m.check("fold range", np.all(got >= 0) and np.all(got <= fs / 2 * (1 + 1e-12)), lambda: "folded frequencies leave [0, fs/2]: %s of fs %g" % (vmon.brief(got), fs))
        n = np.arange(40)
        a = np.cos(2 * np.pi * np.outer(fin / fs, n))
        b = np.cos(2 * np.pi * np.outer(np.asarray(got) / fs, n))
        m.close("alias identical samples", b, a, atol=1e-9, what="samples of the folded tone")
        one = [m.call(fold_frequency_to_nyquist, float(v), fs) for v in fin[6:9]]
        m.check("fold range", all(np.ndim(v) == 0 for v in one), "scalar input must give a scalar")
        m.close("fold range", one, got[6:9], rtol=1e-12, what="scalar versus array folding")
        m.equal("fold range", np.asarray(adc.fold_frequency_to_nyquist(fin, fs)), np.asarray(got), "package-level entry point")
        m.nontrivial()
    else:
        n = gen.pick(rng, [gen.ri(rng, 3, 4000), 1024, 1023, 997])
        for k in [0, 1, n // 2, n // 2 + 1, n - 1, n, n + 1, gen.ri(rng, -3 * n, 9 * n), gen.ri(rng, 0, 5 * n)]:
            got = m.call(fold_bin_to_nyquist, k, n)
            m.close("fold bin", got, gen.fold(k, n), atol=1e-9, what="bin %d of %d" % (k, n))
            t = np.arange(min(n, 64))
            m.close("alias identical samples", np.cos(2 * np.pi * ((int(got) * t) % n) / n), np.cos(2 * np.pi * ((k * t) % n) / n), atol=1e-9, what="samples of folded bin %d of %d" % (k, n))
        kf = rng.uniform(0, 6) * n
        got = m.call(fold_bin_to_nyquist, kf, n)
        m.check("fold bin", 0 <= got <= n / 2 and abs(np.cos(2 * np.pi * got / n) - np.cos(2 * np.pi * kf / n)) < 1e-9, lambda: "fractional bin %.4f of %d folds to %.4f" % (kf, n, got))
        fs = gen.logu(rng, 1e-3, 1e10)
        b = gen.ri(rng, 0, n)
        f = m.call(adc.bin_to_freq, b, fs, n)
        m.close("bin conversion", f, b * fs / n, rtol=1e-12, what="bin to frequency")
        m.equal("bin conversion", m.call(adc.freq_to_bin, f, fs, n), b, "frequency back to bin")
        m.equal("bin conversion", m.call(adc.freq_to_bin, (b + rng.uniform(-0.45, 0.45)) * fs / n, fs, n), b, "nearest bin")
        m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
