"""C10 unit conversions and figures of merit are exact inverses and match their physical definitions."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import adctoolbox as adc
import adctoolbox.common as common
import adctoolbox.fundamentals as fnd
import adctoolbox.fundamentals.units as units
from adctoolbox.utils.vpp_for_target_dbfs import vpp_for_target_dbfs

PROPERTY = "C10"
RULE = "random values over many decades, scalars and arrays; non-trivial = finite non-zero argument"
REQUIRED_ORACLES = ["round trip", "definition", "snr-nsd", "scalar kind", "figure of merit", "zero noise", "vpp"]
MIN_NONTRIVIAL = {"quick": 200, "thorough": 3000}


def cases(rng, tier):
    for i in range(4000 if tier == "quick" else 20000):
        yield {"seed": gen.seed_of(rng), "array": bool(i % 2)}


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    arr = c["array"]

    def val(lo, hi):
        v = rng.uniform(lo, hi, 5 if arr else None)
        return v if arr else float(v)

    def pos(lo, hi):
        v = np.exp(rng.uniform(np.log(lo), np.log(hi), 5 if arr else None))
        return v if arr else float(v)

    R = dict(rtol=1e-10, atol=1e-12)
    d, p = val(-160, 160), pos(1e-12, 1e12)
    C = m.call
    m.close("definition", C(adc.db_to_mag, d), 10.0 ** (np.asarray(d) / 20), rtol=1e-12, what="dB to magnitude")
    m.close("definition", C(adc.db_to_power, d), 10.0 ** (np.asarray(d) / 10), rtol=1e-12, what="dB to power")
    m.close("definition", C(adc.mag_to_db, p), 20 * np.log10(p), what="magnitude to dB", **R)
    m.close("definition", C(adc.power_to_db, p), 10 * np.log10(p), what="power to dB", **R)
    m.close("round trip", C(adc.mag_to_db, C(adc.db_to_mag, d)), d, what="dB-magnitude", **R)
    m.close("round trip", C(adc.power_to_db, C(adc.db_to_power, d)), d, what="dB-power", **R)
    m.close("round trip", C(adc.mw_to_dbm, C(adc.dbm_to_mw, d)), d, what="dBm-mW", **R)
    m.close("definition", C(adc.dbm_to_mw, d), 10 ** (np.asarray(d) / 10), rtol=1e-12, what="dBm to mW")
    z = gen.pick(rng, [50, 50, 75, 600, 1, 1e3])
    dm = val(-100, 60)
    vr = C(adc.dbm_to_vrms, dm, z)
    m.close("definition", vr, np.sqrt(10 ** (np.asarray(dm) / 10) * 1e-3 * z), rtol=1e-12, what="dBm to Vrms into %g ohm" % z)
    m.close("round trip", C(adc.vrms_to_dbm, vr, z), dm, what="dBm-Vrms", **R)
    if z == 50:
        m.close("definition", C(adc.dbm_to_vrms, dm), vr, rtol=1e-12, what="default load is 50 ohm")
        m.close("definition", C(adc.vrms_to_dbm, vr), dm, what="default load is 50 ohm", **R)
        m.close("definition", C(adc.sine_amplitude_to_power, p), np.asarray(p) ** 2 / 100, rtol=1e-12, what="sine power, default load")
    m.close("definition", C(adc.sine_amplitude_to_power, p, z), np.asarray(p) ** 2 / 2 / z, rtol=1e-12, what="sine amplitude to watts")
    m.close("round trip", C(adc.vrms_to_dbm, np.asarray(p) / np.sqrt(2), z), 10 * np.log10(np.asarray(C(adc.sine_amplitude_to_power, p, z)) * 1e3), what="sine power consistent with dBm", **R)
    e = val(-5, 30)
    m.close("definition", C(adc.snr_to_enob, e), (np.asarray(e) - 1.76) / 6.02, what="SNR to ENOB", **R)
    m.close("round trip", C(adc.snr_to_enob, C(adc.enob_to_snr, e)), e, what="ENOB-SNR", **R)
    m.close("round trip", C(adc.enob_to_snr, C(adc.snr_to_enob, d)), d, what="SNR-ENOB", **R)
    nb, vref = gen.ri(rng, 1, 25), gen.logu(rng, 0.1, 10)
    k = val(-5000, 5000)
    v = C(adc.lsb_to_volts, k, vref, nb)
    m.close("definition", v, np.asarray(k) * vref / 2 ** nb, rtol=1e-12, what="LSB to volts, %d bits" % nb)
    m.close("round trip", C(adc.volts_to_lsb, v, vref, nb), k, rtol=1e-10, what="LSB-volts")
    # SNR / NSD
    fs, osr, ps = gen.logu(rng, 1, 1e11), gen.pick(rng, [1, 1, 2, 7.5, 64]), rng.uniform(-60, 0)
    s = val(-10, 140)
    want = ps - np.asarray(s) - 10 * np.log10(fs / (2 * osr))
    for name, f, g in (("package", adc.snr_to_nsd, adc.nsd_to_snr), ("fundamentals", fnd.snr_to_nsd, fnd.nsd_to_snr)):
        nsd = C(f, s, fs, osr, ps)
        m.close("snr-nsd", nsd, want, atol=1e-9, what="SNR to NSD (%s)" % name)
        m.close("snr-nsd", C(f, s, fs=fs, osr=osr, psignal_dbfs=ps), want, atol=1e-9, what="SNR to NSD by keyword")
        m.close("snr-nsd", C(g, nsd, fs, osr, ps), s, atol=1e-9, what="NSD back to SNR (%s)" % name)
        m.close("snr-nsd", C(f, s, fs), -np.asarray(s) - 10 * np.log10(fs / 2), atol=1e-9, what="full-scale Nyquist default")
        m.close("snr-nsd", C(g, -np.asarray(s) - 10 * np.log10(fs / 2), fs), s, atol=1e-9, what="full-scale Nyquist default")
        if not arr:
            m.check("scalar kind", np.ndim(nsd) == 0, "scalar SNR must give a scalar NSD")
    m.close("snr-nsd", C(units.snr_to_nsd, s, fs, signal_pwr_dbfs=ps, osr=osr), want, atol=1e-9, what="SNR to NSD (units)")
    m.close("snr-nsd", C(units.nsd_to_snr, want, fs, signal_pwr_dbfs=ps, osr=osr), s, atol=1e-9, what="NSD to SNR (units)")
    m.close("snr-nsd", C(common.snr_to_nsd, s, fs, osr=osr, signal_pwr_dbfs=ps), want, atol=1e-9, what="SNR to NSD (legacy keyword)")
    m.close("snr-nsd", C(common.nsd_to_snr, want, fs, osr=osr, signal_pwr_dbfs=ps), s, atol=1e-9, what="NSD to SNR (legacy keyword)")
    a, nz = pos(1e-3, 1e3), pos(1e-18, 1)
    ref = 10 * np.log10(np.asarray(a) ** 2 / 2 / np.asarray(nz) ** 2) + (10 * np.log10(osr) if osr > 1 else 0)
    m.close("snr-nsd", C(adc.amplitudes_to_snr, a, nz, osr), ref, atol=1e-9, what="SNR from amplitudes")
    full = C(adc.amplitudes_to_snr, a, nz, osr, return_power=True)
    m.close("snr-nsd", full[0], ref, atol=1e-9, what="SNR from amplitudes with powers")
    m.close("definition", full[1], np.asarray(a) ** 2 / 2, rtol=1e-12, what="signal power")
    m.close("definition", full[2], np.asarray(nz) ** 2, rtol=1e-12, what="noise power")
    ofr = float(rng.uniform(1.01, 2.0))
    m.close("snr-nsd", C(adc.amplitudes_to_snr, 1.0, 1e-3, ofr), 10 * np.log10(0.5e6 * ofr), atol=1e-9, what="SNR from amplitudes, oversampled %.3f times" % ofr)
    z0 = C(adc.amplitudes_to_snr, 1.0, 0.0)
    m.check("zero noise", z0 == np.inf, lambda: "SNR with zero noise is %s" % z0)
    mix = C(adc.amplitudes_to_snr, 1.0, np.array([0.0, 0.1]))
    m.check("zero noise", mix[0] == np.inf and abs(mix[1] - 10 * np.log10(50)) < 1e-9, lambda: "mixed zero noise gives %s" % mix)
    # figures of merit
    P, bw = pos(1e-9, 10), pos(1, 1e10)
    en = val(2, 20)
    m.close("figure of merit", C(adc.calculate_walden_fom, P, bw, en), np.asarray(P) / (2.0 ** np.asarray(en) * np.asarray(bw)), rtol=1e-12, what="Walden")
    m.close("figure of merit", C(adc.calculate_schreier_fom, P, s, bw), np.asarray(s) + 10 * np.log10(np.asarray(bw) / np.asarray(P)), atol=1e-9, what="Schreier")
    cap, vfs = pos(1e-3, 1e3), gen.logu(rng, 0.1, 5)
    m.close("figure of merit", C(adc.calculate_thermal_noise_limit, cap, vfs), 10 * np.log10(vfs ** 2 / 8 / (1.380649e-23 * 300 / (np.asarray(cap) * 1e-12))), atol=0.02, what="kT/C limit")
    m.close("figure of merit", C(adc.calculate_thermal_noise_limit, cap), 10 * np.log10(1 / 8 / (1.380649e-23 * 300 / (np.asarray(cap) * 1e-12))), atol=0.02, what="kT/C limit, 1 V default")
    f, tj = pos(1, 1e11), gen.logu(rng, 1e-16, 1e-9)
    m.close("figure of merit", C(adc.calculate_jitter_limit, f, tj), -20 * np.log10(2 * np.pi * np.asarray(f) * tj), atol=1e-9, what="jitter limit")
    vpp, now, goal = gen.logu(rng, 0.01, 10), rng.uniform(-40, 3), rng.uniform(-40, 3)
    v2 = C(vpp_for_target_dbfs, vpp, now, goal)
    m.close("vpp", now + 20 * np.log10(v2 / vpp), goal, atol=1e-9, what="level after retuning Vpp")
    m.close("vpp", now + 20 * np.log10(C(vpp_for_target_dbfs, vpp, now) / vpp), -0.5, atol=1e-9, what="default level after retuning Vpp")
    m.nontrivial()
    m.sample(array=arr, db=d, fs=fs, osr=osr, nsd=want)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
