"""Reference definitions of the single-tone spectrum metrics, written from the documentation."""
import numpy as np
import gen


def inband_bins(n, osr):
    edge = n / (2.0 * osr)
    if abs(edge - round(edge)) < 1e-9 * max(1.0, edge):
        edge = round(edge)
    return int(max(1, min(int(np.floor(edge)) + 1, n // 2 + 1)))


def average_spectrum(runs, win, peak):
    runs = np.atleast_2d(np.asarray(runs, float))
    return np.mean([gen.psd((r - r.mean()) / peak, win) for r in runs], axis=0)


LOBE_DEFAULT = {"rectangular": 0, "boxcar": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4, "kaiser": 8, "chebwin": 4}
LOBE_FALLBACK = {"rectangular": 1, "boxcar": 1, "hann": 3, "hamming": 3, "blackman": 4, "blackmanharris": 5, "flattop": 6, "kaiser": 10, "chebwin": 6}


def auto_side_bins(p, fb, fbf, nin, n, win):
    """Half-width at which the leakage of an ideal tone sinks below the median in-band level; None when a comparison is too close to call."""
    ideal = gen.psd(np.sin(2 * np.pi * fbf * np.arange(n) / n), win)
    ideal = ideal * (p[fb] / ideal[fb])
    band = p[:nin]
    pos = band[band > 1e-20]
    floor = max(float(np.median(pos if len(pos) >= 3 else band)), p[fb] * 1e-24)
    reach = min(fb, nin - 1 - fb)
    least = min(LOBE_DEFAULT[win], reach)
    for k in range(1, reach + 1):
        a, b = ideal[fb - k], ideal[fb + k]
        for v in (a, b):
            if abs(np.log(max(v, 1e-300) / floor)) < 1e-4 or (v < 1e-26 * p[fb] and floor < 1e-22 * p[fb]):
                return None
        if a <= floor and b <= floor:
            return max(k - 1, least)
    return min(max(LOBE_FALLBACK[win], least), reach)


def metrics(p, n, fb, fbf, sb, fs, osr, H, nf, assumed, M):
    """Metrics from a linear power spectrum and the identified tone location."""
    nin = inband_bins(n, osr)
    s0, s1 = max(fb - sb, 0), min(fb + sb + 1, nin)
    sig = p[s0:s1].sum()
    sig_db = 10 * np.log10(sig)
    if assumed is not None and not np.isnan(assumed):
        sig, sig_db = 10 ** (assumed / 10), assumed
    rest = p[:nin].copy()
    rest[:sb + 1] = 0
    rest[s0:s1] = 0
    out = {"sig_pwr_dbfs": sig_db, "sndr_dbc": 10 * np.log10(sig / rest.sum())}
    out["enob"] = (out["sndr_dbc"] - 1.76) / 6.02
    k = int(np.argmax(rest))
    spur = rest[max(k - sb, 0):k + sb + 1].sum()
    out["spur_bin"] = k
    out["sfdr_dbc"] = 10 * np.log10(sig / spur) if spur > 0 else np.inf
    hb, hp, used, col = [], [], set(), []
    for h in range(2, H + 1):
        b = min(int(np.round(gen.fold(h * fbf, n))), n // 2)
        hb.append(b)
        pw = 1e-15
        if abs(b - fb) <= 2 * sb:
            col.append(h)
        elif b > sb:
            rng_ = range(max(b - sb, 0), min(b + sb + 1, len(p)))
            pw = max(sum(p[i] for i in rng_), 1e-15)
            used.update(rng_)
        hp.append(pw)
    out["harmonic_bins"] = hb
    out["collided"] = col
    out["harmonics_dbc"] = 10 * np.log10(np.array(hp) / sig)
    thd = max(sum(p[i] for i in used), 1e-15)
    out["thd_dbc"] = 10 * np.log10(thd / sig)
    floor = rest[rest > 1e-20]
    est = {}
    if floor.size:
        est[1] = np.median(floor) / (0.72 if M == 1 else (1 - 2 / (9 * M)) ** 3) * nin
        srt = np.sort(floor)
        lo, hi = max(1, int(len(srt) * 0.05)), max(1, int(len(srt) * 0.95))
        est[2] = srt[lo - 1:max(lo, hi)].mean() * nin
    ex = rest.copy()
    wide = rest.copy()
    for b in hb:
        if b < nin:
            ex[b] = 0
            if b >= 1:
                wide[max(b - sb, 0):b + sb + 1] = 0
    est[3], est[4] = ex.sum(), wide.sum()
    if floor.size:
        est[0] = sorted([est[1], est[2], est[3]])[1]
    noise = max(est[nf], 1e-15)
    out["snr_dbc"] = 10 * np.log10(sig / noise)
    out["noise_floor_dbfs"] = sig_db - out["snr_dbc"]
    out["nsd_dbfs_hz"] = out["noise_floor_dbfs"] - 10 * np.log10(fs / (2 * osr))
    return out
