"""C06 reported metrics follow their definitions over the reported spectrum."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import refspec
from adctoolbox.spectrum import compute_spectrum

PROPERTY = "C06"
RULE = ("random ADC-like records and every option combination; the reported spectrum is compared with an independent one and all metrics are "
        "recomputed from it; non-trivial = finite metrics with at least one harmonic evaluated")
REQUIRED_ORACLES = ["spectrum", "sndr_dbc", "snr_dbc", "sfdr_dbc", "thd_dbc", "harmonics_dbc", "sig_pwr_dbfs", "enob", "nsd_dbfs_hz", "noise_floor_dbfs", "tone is the peak", "automatic width"]
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2000}


def cases(rng, tier):
    for i in range(5400 if tier == "quick" else 27000):
        yield {"seed": gen.seed_of(rng), "nf": i % 5}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    N = gen.length(rng, [64, 100, 127, 128, 255, 256, 512, 777, 1000, 1024, 2048])
    M = gen.pick(rng, [1, 1, 2, 3, 8]) if rng.random() < 0.95 else gen.pick(rng, [16, 33])
    osr = gen.pick(rng, [1, 1, 1, 2, 3, 1.7])
    win = gen.pick(rng, gen.WINDOWS)
    H = gen.ri(rng, 2, 12)
    n = np.arange(N)
    f = rng.uniform(3, N / (2 * osr) - 2)
    if rng.random() < 0.6:
        f = round(f)
    sig = 10 ** rng.uniform(-4, -1.5)
    x = []
    for _ in range(M):
        s = np.sin(2 * np.pi * f * n / N + rng.uniform(0, 6.28))
        x.append(rng.uniform(-1, 1) + s + 10 ** rng.uniform(-4, -2) * s ** 2 + 10 ** rng.uniform(-4, -2) * s ** 3 + sig * rng.standard_normal(N))
    x = np.array(x)
    if rng.random() < 0.3:
        x = np.round(x * 200)
    peak_form = gen.ri(rng, 0, 3)
    peak = (x.max() - x.min()) / 2 if peak_form == 0 else rng.uniform(0.5, 3) * np.abs(x).max()
    msr = None if peak_form == 0 else (peak if peak_form == 1 else (-peak, peak))
    sb = gen.pick(rng, [None, None, 0, 1, gen.LOBE[win], gen.LOBE[win] + 2])
    assumed = gen.pick(rng, [None, None, None, float("nan"), -3.0])
    fs = gen.logu(rng, 1e-1, 1e10)
    r = m.call(compute_spectrum, x if M > 1 else x[0], fs=fs, max_scale_range=msr, win_type=win, side_bin=sb, osr=osr,
               max_harmonic=H, nf_method=c["nf"], assumed_sig_pwr_dbfs=assumed)
    p = 10 ** (np.asarray(r["plot_data"]["power_spectrum_db_plot"]) / 10)
    ref = refspec.average_spectrum(x, win, peak)
    m.close("spectrum", p, ref, rtol=1e-6, atol=1e-15, what="power spectrum (%s, N=%d, M=%d)" % (win, N, M))
    nin = refspec.inband_bins(N, osr)
    fb = int(r["plot_data"]["fundamental_bin"])
    fbf = float(r["plot_data"]["fundamental_bin_fractional"])
    m.check("tone is the peak", 1 <= fb < nin and ref[fb] >= ref[1:nin].max() * (1 - 1e-9), lambda: "fundamental bin %d is not the strongest in-band bin %d" % (fb, 1 + int(np.argmax(ref[1:nin]))))
    m.check("tone is the peak", abs(fbf - fb) <= 0.5 + 1e-9, lambda: "interpolated position %.6f strays from peak bin %d" % (fbf, fb))
    s0 = int(r["plot_data"]["sig_bin_start"])
    used = sb if sb is not None else fb - s0
    if sb is None:
        auto = refspec.auto_side_bins(ref, fb, fbf, nin, N, win) if 1 <= fb < nin else None
        if auto is not None:
            m.equal("automatic width", used, auto, "bins on each side counted as the tone when the choice is left open (%s, N=%d, osr=%g)" % (win, N, osr))
    m.equal("tone bins", (s0, int(r["plot_data"]["sig_bin_end"])), (max(fb - used, 0), min(fb + used + 1, nin)), "signal bin range")
    if not (1 <= fb < nin):
        return
    frac = [abs((h * fbf) % 1 - 0.5) for h in range(2, H + 1)]
    if min(frac) < 1e-6:
        m.skip("harmonic position on a rounding boundary")
        return
    if refspec.inband_bins(N, osr) <= 2 * used + 2:
        m.skip("nothing left in band")
        return
    rest = ref[:nin].copy()
    rest[:used + 1] = 0
    rest[max(fb - used, 0):fb + used + 1] = 0
    if not (rest > 1e-20).any():
        m.skip("nothing left in band")
        return
    want = refspec.metrics(ref, N, fb, fbf, used, fs, osr, H, c["nf"], assumed, M)
    G = r["metrics"]
    for k in ("sig_pwr_dbfs", "sndr_dbc", "enob", "sfdr_dbc", "thd_dbc", "harmonics_dbc"):
        m.close(k, G[k], want[k], atol=1e-5, what="%s (%s, side bins %d, N=%d, osr=%g)" % (k, win, used, N, osr))
    wide_empty = c["nf"] == 4 and not np.isfinite(G["snr_dbc"])
    if wide_empty:
        m.check("snr undefined", want["snr_dbc"] > 100 or 10 ** ((want["sig_pwr_dbfs"] - want["snr_dbc"]) / 10) <= 1.1e-15, lambda: "SNR undefined although noise bins remain (reference %.3f dB)" % want["snr_dbc"])
    else:
        for k in ("snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz"):
            m.close(k, G[k], want[k], atol=1e-5, what="%s, method %d (%s, side bins %d, N=%d, M=%d, osr=%g)" % (k, c["nf"], win, used, N, M, osr))
    m.equal("harmonic bins", [int(b) for b in r["plot_data"]["harmonic_bins"]], want["harmonic_bins"], "harmonic bins")
    m.equal("collided", list(r["plot_data"]["collided_harmonics"]), want["collided"], "harmonics that coincide with the tone")
    m.equal("spur bin", int(r["plot_data"]["spur_bin_idx"]), want["spur_bin"], "highest spur bin")
    m.nontrivial(np.isfinite(want["sndr_dbc"]) and len(want["collided"]) < H - 1)
    m.sample(N=N, runs=M, window=win, side_bins=used, method=c["nf"], sndr=float(G["sndr_dbc"]), reference=float(want["sndr_dbc"]), thd=float(G["thd_dbc"]))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
