"""C01 spectrum metrics recover the known composition of a record."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.spectrum import compute_spectrum

PROPERTY = "C01"
RULE = ("random record length (odd/even/prime/power of two), window, full-scale form, tone bin, harmonic and spur "
        "levels; non-trivial = harmonics, spur and noise all present and separately placed, or a harmonic that aliases onto the fundamental or DC")
REQUIRED_ORACLES = ["signal power", "sndr", "thd", "sfdr", "snr", "enob", "harmonic level", "collided harmonics"]
MIN_NONTRIVIAL = {"quick": 400, "thorough": 4000}
ASSUMPTIONS = ["truth comes from transforming each synthetic component separately", "bin placement keeps components out of each other's main lobes"]

LENGTHS = [255, 256, 509, 512, 997, 1000, 1024, 1536, 2047, 2048, 3001, 4096]


def cases(rng, tier):
    n = 4800 if tier == "quick" else 24000
    for i in range(n):
        kind = {7: "collide", 6: "auto", 3: "auto"}.get(i % 8, "plain")
        yield {"kind": kind, "seed": gen.seed_of(rng), "N": gen.length(rng, LENGTHS if tier == "quick" or i % 10 else LENGTHS + [8192, 10007, 16384]),
               "win": gen.WINDOWS[i % len(gen.WINDOWS)], "H": gen.ri(rng, 2, 10) if rng.random() < 0.9 else gen.ri(rng, 10, 19)}


def place(rng, N, guard, H):
    """Tone bin whose harmonics, and a spur, keep >= guard bins apart from each other, DC and Nyquist."""
    for _ in range(4000):
        fb = gen.ri(rng, guard + 1, N // 2 - guard)
        hb = [gen.fold(h * fb, N) for h in range(2, H + 1)]
        used = [0, N / 2, fb] + hb
        s = sorted(used)
        if min(b - a for a, b in zip(s, s[1:])) <= guard:
            continue
        for _ in range(50):
            sp = gen.ri(rng, guard + 1, N // 2 - guard)
            if min(abs(sp - u) for u in used) > guard:
                return fb, hb, sp
    return None


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    N, win = c["N"], c["win"]
    if win == "chebwin":
        N = min(N, 4096)
    lobe = gen.LOBE[win]
    H = c["H"]
    if c["kind"] == "collide":
        return run_collide(c, m, rng)
    if c["kind"] == "auto":
        return run_auto(c, m, rng)
    guard = 2 * lobe + 1
    while True:
        pl = place(rng, N, guard, H)
        if pl or H == 2:
            break
        H -= 1
    if not pl:
        m.skip("no room for components")
        return
    fb, hb, sp = pl
    A = gen.logu(rng, 1e-3, 1e3)
    fs_ratio = rng.uniform(0.3, 1.0)
    peak = A / fs_ratio
    n = np.arange(N)
    zone = gen.ri(rng, 0, 3)
    ftone = zone * N + (fb if rng.random() < 0.5 else -fb)
    ph = rng.uniform(0, 2 * np.pi, H + 2)
    sig = A * np.cos(2 * np.pi * ((ftone * n) % N) / N + ph[0])
    hamp = A * 10 ** (rng.uniform(-75 if win != "chebwin" else -55, -35, H - 1) / 20)
    harm = np.zeros(N)
    for h in range(2, H + 1):
        harm += hamp[h - 2] * np.cos(2 * np.pi * ((h * ftone * n) % N) / N + ph[h])
    spamp = A * 10 ** (rng.uniform(-80, -30) / 20)
    spur = spamp * np.cos(2 * np.pi * ((sp * n) % N) / N + ph[1])
    noise_db = rng.uniform(-95, -75) if win != "chebwin" else rng.uniform(-58, -50)
    skip = set()
    for b in [fb, sp] + hb:
        skip.update(range(b - 2 * lobe, b + 2 * lobe + 1))
    noise = gen.flat_noise(rng, N, A / np.sqrt(2) * 10 ** (noise_db / 20), skip)
    dc = rng.uniform(-3, 3) * A
    x = sig + harm + spur + noise + dc
    form = gen.ri(rng, 0, 4)
    if form == 0:
        msr, peak = None, (x.max() - x.min()) / 2
    elif form == 1:
        msr = peak
    elif form == 2:
        lo = rng.uniform(-1, 1) * peak
        msr = (lo, lo + 2 * peak)
    else:
        lo = rng.uniform(-1, 1) * peak
        msr = [lo, lo + 2 * peak]
    fs = gen.logu(rng, 1, 1e10)
    sb = lobe
    nf = gen.pick(rng, [3, 4])
    r = m.call(compute_spectrum, x, fs=fs, max_scale_range=msr, win_type=win, side_bin=sb, max_harmonic=H, nf_method=nf)
    M = r["metrics"]
    # true powers, component by component
    p_noise = gen.psd(noise, win)
    keep = np.ones(len(p_noise), bool)
    keep[:sb + 1] = False
    keep[max(fb - sb, 0):fb + sb + 1] = False
    noise_pow = p_noise[keep].sum()
    hkeep = keep.copy()
    for b in hb:
        if nf == 4:
            hkeep[max(b - sb, 0):b + sb + 1] = False
        else:
            hkeep[b] = False
    sigp = A ** 2
    hp = hamp ** 2
    spp = spamp ** 2
    tol = 0.02 if win in gen.EXACT else 0.3
    m.close("signal power", M["sig_pwr_dbfs"], gen.db(sigp / peak ** 2), atol=tol, what="signal power dBFS")
    m.close("sndr", M["sndr_dbc"], gen.db(sigp / (noise_pow + hp.sum() + spp)), atol=tol, what="SNDR")
    m.close("enob", M["enob"], (gen.db(sigp / (noise_pow + hp.sum() + spp)) - 1.76) / 6.02, atol=tol / 5, what="ENOB")
    # noise inside a harmonic's own bins is counted with it; bound its contribution
    nb = np.array([p_noise[max(b - sb, 0):b + sb + 1].sum() for b in hb])
    for j, b in enumerate(hb):
        slack = tol + 20 * np.log10(1 + np.sqrt(nb[j] / hp[j])) * 1.05
        m.close("harmonic level", M["harmonics_dbc"][j], gen.db(hp[j] / sigp), atol=slack, what="HD%d" % (j + 2))
    slack = tol + 20 * np.log10(1 + np.sqrt(nb.sum() / hp.sum())) * 1.05
    m.close("thd", M["thd_dbc"], gen.db(hp.sum() / sigp), atol=slack, what="THD")
    big = sorted(list(hp) + [spp], reverse=True)
    worst = big[0]
    slack = tol + 20 * np.log10(1 + np.sqrt(max(nb.max(), p_noise[sp - sb:sp + sb + 1].sum()) / worst)) * 1.05
    if p_noise.max() < worst * 0.1:
        m.close("sfdr", M["sfdr_dbc"], gen.db(sigp / worst), atol=slack, what="SFDR")
        cand = hb + [sp]
        amps = list(hp) + [spp]
        if big[1] < 0.7 * big[0]:
            at = cand[int(np.argmax(amps))]
            m.check("spur location", abs(r["plot_data"]["spur_bin_idx"] - at) <= 0, lambda: "reported spur bin %s, strongest component is at %s" % (r["plot_data"]["spur_bin_idx"], at))
    # SNR: harmonics excluded, spur counted as noise
    left = 0.0 if sb == 0 or nf == 4 else None
    if left is not None:
        m.close("snr", M["snr_dbc"], gen.db(sigp / (p_noise[hkeep].sum() + spp)), atol=tol, what="SNR (harmonics excluded)")
    m.check("fundamental bin", int(r["plot_data"]["fundamental_bin"]) == fb, lambda: "fundamental at %s, tone is in bin %d" % (r["plot_data"]["fundamental_bin"], fb))
    m.equal("harmonic bins", np.asarray(r["plot_data"]["harmonic_bins"]), np.asarray(hb), "harmonic bins")
    m.equal("collided harmonics", list(r["plot_data"]["collided_harmonics"]), [], "collided harmonics")
    m.nontrivial()
    m.sample(N=N, window=win, tone_bin=fb, harmonics=hb, spur_bin=sp, sndr=float(M["sndr_dbc"]), thd=float(M["thd_dbc"]), sfdr=float(M["sfdr_dbc"]), sig=float(M["sig_pwr_dbfs"]))


def run_auto(c, m, rng):
    """Automatic main-lobe width: coherent or not, the tone's power is captured and the rest is noise."""
    N = gen.pick(rng, [1000, 1021, 1024, 2047, 2048, 4096])
    win = gen.pick(rng, ["hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin", "rectangular", "hann"])
    coherent = win in ("rectangular", "hamming") or rng.random() < 0.5
    fb = gen.ri(rng, N // 12, 5 * N // 12)
    f = fb + (0.0 if coherent else rng.uniform(-0.5, 0.5))
    A = gen.logu(rng, 1e-2, 1e2)
    noise_db = rng.uniform(-62, -40) if win in ("hann", "hamming", "blackman", "chebwin") else rng.uniform(-75, -40)
    n = np.arange(N)
    noise = gen.flat_noise(rng, N, A / np.sqrt(2) * 10 ** (noise_db / 20))
    x = A * np.cos(2 * np.pi * f * n / N + rng.uniform(0, 6.28)) + noise
    r = m.call(compute_spectrum, x, max_scale_range=A * 1.5, win_type=win, fs=gen.logu(rng, 1, 1e9))
    M = r["metrics"]
    pn = gen.psd(noise, win)
    s0, s1 = r["plot_data"]["sig_bin_start"], r["plot_data"]["sig_bin_end"]
    m.check("lobe width", s0 <= fb < s1 and s1 - s0 <= 2 * (N // 16), lambda: "signal bins %d..%d for a tone in bin %.3f (N=%d, %s)" % (s0, s1, f, N, win))
    pn[:max(int(r["plot_data"]["fundamental_bin"]) - s0, 0) + 1] = 0
    pn[s0:s1] = 0
    noise_eff = gen.db(pn.sum() / A ** 2)
    slack = 0.25 if coherent and win != "chebwin" else 1.5
    m.close("signal power", M["sig_pwr_dbfs"], -20 * np.log10(1.5), atol=0.05, what="signal power, automatic lobe width (%s)" % win)
    m.close("sndr", M["sndr_dbc"], -noise_eff, atol=slack, what="SNDR, automatic lobe width (%s)" % win)
    m.close("snr", M["snr_dbc"], -noise_eff, atol=slack + 1.0, what="SNR, automatic lobe width (%s)" % win)
    m.close("enob", M["enob"], (M["sndr_dbc"] - 1.76) / 6.02, atol=1e-9, what="ENOB identity")
    m.close("fundamental bin", r["plot_data"]["fundamental_bin_fractional"], f, atol=0.35 if win in ("rectangular",) else 0.2, what="interpolated tone position in bins")
    m.nontrivial()
    if c["seed"] % 9 == 0:
        m.sample(kind="auto", N=N, window=win, tone=f, noise_db=noise_db, sndr=float(M["sndr_dbc"]), snr=float(M["snr_dbc"]), sig=float(M["sig_pwr_dbfs"]))


def run_collide(c, m, rng):
    """Tone at N/q: harmonics q-1, q+1 land on the fundamental, harmonic q on DC."""
    q = gen.ri(rng, 3, 6)
    win = gen.pick(rng, ["rectangular", "hann", "blackman"])
    lobe = gen.LOBE[win]
    fb = gen.ri(rng, 40, 500)
    N = fb * q
    H = gen.ri(rng, 3, 9)
    A = 1.0
    n = np.arange(N)
    ph = rng.uniform(0, 2 * np.pi, H + 1)
    x = A * np.cos(2 * np.pi * fb * n / N + ph[0])
    x = x + gen.flat_noise(rng, N, 1e-4)
    hamp = {}
    bins = {}
    expect_col = []
    for h in range(2, H + 1):
        b = gen.fold(h * fb, N)
        if b == fb:
            expect_col.append(h)
        elif b != 0:
            bins.setdefault(b, []).append(h)
    # exactly one harmonic component per distinct bin so that the truth is unambiguous
    thd = 0.0
    for b, hs in bins.items():
        a = 10 ** (rng.uniform(-50, -30) / 20)
        hamp[b] = a
        x = x + a * np.cos(2 * np.pi * b * n / N + (ph[hs[0]] if 2 * b != N else 0.0))
        thd += a * a * (2.0 if 2 * b == N else 1.0)
    r = m.call(compute_spectrum, x, win_type=win, side_bin=lobe, max_harmonic=H, max_scale_range=1.0)
    m.equal("collided harmonics", sorted(r["plot_data"]["collided_harmonics"]), expect_col, "harmonics aliasing onto the fundamental (tone at fs/%d)" % q)
    if not bins:
        m.check("thd", r["metrics"]["thd_dbc"] < -100, lambda: "THD %s with no harmonic outside the fundamental and DC" % r["metrics"]["thd_dbc"])
    elif not any(2 * b == N for b in bins):
        m.close("thd", r["metrics"]["thd_dbc"], gen.db(thd), atol=0.1, what="THD counts each aliased bin once")
    m.nontrivial()
    m.sample(kind="collide", tone="fs/%d" % q, H=H, collided=str(expect_col), thd=float(r["metrics"]["thd_dbc"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
