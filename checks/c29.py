"""C29 error grouped by input value and by signal phase."""
import sys
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
from adctoolbox.aout import (rearrange_error_by_phase, rearrange_error_by_value, analyze_error_by_phase, analyze_error_by_value,
                             plot_error_hist_phase, plot_error_hist_code)

PROPERTY = "C29"
RULE = "sines with white, amplitude, phase or value-dependent error; random bin counts, ranges and edge shares; non-trivial = several occupied groups"
REQUIRED_ORACLES = ["group counts", "group mean", "group rms", "conservation", "centres", "amplitude noise", "phase noise", "base noise", "separation", "fit quality", "value membership", "edge share", "value shape",
                    "error record", "rejects", "legacy", "plot independence", "units", "input kept", "fit report"]
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1200}


def cases(rng, tier):
    kinds = ["phase", "am", "pm", "both", "value", "value", "shape", "reject", "plot", "white", "sparse", "range"]
    for i in range(720 if tier == "quick" else 3600):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def groups(idx, err, n):
    cnt = np.array([np.sum(idx == k) for k in range(n)], float)
    mean = np.array([err[idx == k].mean() if np.any(idx == k) else np.nan for k in range(n)])
    rms = np.array([np.sqrt(np.mean(err[idx == k] ** 2)) if np.any(idx == k) else np.nan for k in range(n)])
    return cnt, mean, rms


def phase_groups(m, g, x, nb, A):
    N = len(x)
    m.close("error record", g["error"], x - g["fitted_signal"], atol=1e-10 * A, what="error = record minus fitted sine")
    model = g["amplitude"] * np.cos(g["phase"]) + g["dc_offset"]
    m.close("error record", model, g["fitted_signal"], atol=1e-8 * A, what="phase describes the fitted sine")
    u = np.mod(g["phase"], 2 * np.pi) / (2 * np.pi) * nb
    m.close("centres", g["phase_bin_centers_rad"], (np.arange(nb) + 0.5) * 2 * np.pi / nb, atol=1e-10, what="phase of group centres")
    m.equal("group counts", float(np.sum(g["bin_counts"])), float(N), "every sample is counted once")
    tot = np.nansum(g["bin_counts"] * np.nan_to_num(g["bin_error_mean_v"]))
    sq = np.nansum(g["bin_counts"] * np.nan_to_num(g["bin_error_rms_v"]) ** 2)
    m.close("conservation", [tot, sq], [np.sum(g["error"]), np.sum(np.square(g["error"]))], rtol=1e-9, atol=1e-9 * A * (1 + np.sqrt(N)), what="sum and power over the groups")
    if np.min(np.abs(u - np.round(u))) > 1e-7:
        cnt, mean, rms = groups(np.floor(u).astype(int) % nb, g["error"], nb)
        m.close("group counts", g["bin_counts"], cnt, atol=0, what="samples per phase group")
        m.close("group mean", g["bin_error_mean_v"], mean, atol=1e-9 * A, what="mean error per phase group")
        m.close("group rms", g["bin_error_rms_v"], rms, atol=1e-9 * A, what="rms error per phase group")
    m.close("conservation", g["total_rms_v"], np.sqrt(np.mean(np.square(g["error"]))), rtol=1e-9, what="total rms")


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    N = gen.length(rng, [2048, 4096, 5003], 0.05)
    n = np.arange(N)
    b = gen.coprime_bin(rng, N, 30, N // 2 - 30)
    f = b / N
    A = rng.uniform(0.3, 0.49) if kind in ("value", "shape", "plot", "reject") else gen.logu(rng, 1e-6, 1e3)
    dc = 0.0 if kind in ("value", "shape") else A * rng.uniform(-1, 1)
    p0 = rng.uniform(0, 6.28)
    ph = 2 * np.pi * f * n + p0
    s = A * 10 ** rng.uniform(-4, -2)
    e = s * rng.standard_normal(N)
    x = A * np.cos(ph) + dc + e
    keep = x.copy()
    nb = gen.ri(rng, 4, 200) if rng.random() < 0.9 or N > 5003 else gen.ri(rng, 200, 900)
    given = rng.random() < 0.5
    if kind in ("phase", "am", "pm", "both", "white"):
        a = A * 10 ** rng.uniform(-3.5, -2)
        kw = dict(n_bins=nb)
        if given:
            kw["norm_freq"] = f
        if kind == "am":
            x = (A + a * rng.standard_normal(N)) * np.cos(ph) + dc + e
        elif kind == "pm":
            x = A * np.cos(ph + a / A * rng.standard_normal(N)) + dc + e
        elif kind == "both":
            a2 = A * 10 ** rng.uniform(-3.5, -2)
            x = (A + a * rng.standard_normal(N)) * np.cos(ph + a2 / A * rng.standard_normal(N)) + dc
            kw["include_base_noise"] = False
        keep = x.copy()
        fn = gen.pick(rng, [rearrange_error_by_phase, analyze_error_by_phase])
        if fn is analyze_error_by_phase:
            kw["create_plot"] = False
        g = m.call(fn, x, **kw)
        m.equal("input kept", x, keep, "caller's record")
        phase_groups(m, g, x, nb, A)
        m.close("fit report", g["norm_freq"], f, atol=1e-12 if given else 0.02 / N, what="frequency reported")
        tot2 = np.mean((x - (A * np.cos(ph) + dc)) ** 2)
        # the cos(2 phi) regression on squared error: spread of a squared Gaussian is sqrt(2) times its variance
        pk = s ** 2 + a ** 2 + (a2 ** 2 if kind == "both" else 0)
        tv = 8 * 4.5 * pk / np.sqrt(N)
        am2, pm2, b2 = g["am_noise_rms_v"] ** 2, g["pm_noise_rms_v"] ** 2, g["base_noise_rms_v"] ** 2
        m.close("amplitude noise", g["am_relative"], g["am_noise_rms_v"] / g["amplitude"], rtol=1e-9, what="relative amplitude noise")
        m.close("phase noise", g["pm_noise_rms_rad"], g["pm_noise_rms_v"] / g["amplitude"], rtol=1e-9, what="phase noise in radians")
        if kind == "am":
            m.close("amplitude noise", am2, a ** 2, atol=tv, what="variance of injected amplitude noise")
            m.close("phase noise", pm2, 0.0, atol=tv, what="phase noise where there is none")
            m.close("base noise", b2, s ** 2, atol=tv, what="base noise variance")
        elif kind == "pm":
            m.close("phase noise", pm2, a ** 2, atol=tv, what="variance of injected phase noise (as voltage)")
            m.close("amplitude noise", am2, 0.0, atol=tv, what="amplitude noise where there is none")
            m.close("base noise", b2, s ** 2, atol=tv, what="base noise variance")
        elif kind == "both":
            m.close("amplitude noise", am2, a ** 2, atol=tv, what="amplitude noise with no base noise assumed")
            m.close("phase noise", pm2, a2 ** 2, atol=tv, what="phase noise with no base noise assumed")
            m.close("base noise", b2, 0.0, atol=0, what="base noise when not requested")
        else:
            m.close("base noise", b2, s ** 2, atol=tv, what="white noise is base noise")
            m.close("amplitude noise", [am2, pm2], [0, 0], atol=tv, what="white noise is neither amplitude nor phase noise")
        m.close("conservation", (am2 + pm2) / 2 + b2, np.mean(np.square(g["error"])), rtol=0.3 if kind == "both" else 1e-2, atol=tv, what="noise parts add up to the total")
        # the separation is the least-squares regression of the squared error on cos(2 phase)
        c2 = np.cos(2 * np.asarray(g["phase"]))
        e2 = np.square(g["error"])
        X = np.column_stack([c2, np.ones(N)])
        sl, ic = np.linalg.lstsq(X, e2, rcond=None)[0]
        if kw.get("include_base_noise", True):
            ref = [max(0.0, 2 * sl), max(0.0, -2 * sl), max(0.0, ic - abs(sl))]
        else:
            ref = [max(0.0, ic + sl), max(0.0, ic - sl), 0.0]
        m.close("separation", [am2, pm2, b2], ref, atol=1e-7 * np.mean(e2), what="amplitude, phase and base variances of the regression on the phase")
        st = np.sum((e2 - e2.mean()) ** 2)
        if st > 1e-18:
            m.close("fit quality", g["r_squared_raw"], 1 - np.sum((e2 - X @ [sl, ic]) ** 2) / st, atol=1e-7, what="share of the squared error explained, sample by sample")
        occ = np.asarray(g["bin_counts"]) > 0
        if occ.sum() > 3:
            act = np.asarray(g["bin_error_rms_v"])[occ] ** 2
            pc = np.asarray(g["phase_bin_centers_rad"])[occ]
            mod = ref[0] * np.cos(pc) ** 2 + ref[1] * np.sin(pc) ** 2 + ref[2]
            bt = np.sum((act - act.mean()) ** 2)
            if bt > 1e-18 and bt > 0.0101 * act.mean() ** 2 * len(act):
                m.close("fit quality", g["r_squared_binned"], 1 - np.sum((act - mod) ** 2) / bt, atol=1e-5, what="share of the group profile explained")
            elif bt > 1e-18 and bt < 0.0099 * act.mean() ** 2 * len(act):
                m.close("fit quality", g["r_squared_binned"], max(0.0, 1 - np.mean((act - mod) ** 2) / act.mean() ** 2), atol=1e-5, what="fit quality of a flat profile")
        if "r_squared_binned" in g:
            m.check("conservation", g["r_squared_raw"] <= 1 + 1e-9 and g["r_squared_binned"] <= 1 + 1e-9, "fit quality above one")
        if rng.random() < 0.3:
            k = 2.0 ** gen.ri(rng, -8, 9)
            q = m.call(fn, x * k, **kw)
            m.close("units", np.array([q["am_noise_rms_v"], q["pm_noise_rms_v"], q["base_noise_rms_v"]]) / k, [g["am_noise_rms_v"], g["pm_noise_rms_v"], g["base_noise_rms_v"]], rtol=1e-3, atol=1e-3 * s, what="noise parts in other units")
            m.close("units", q["pm_noise_rms_rad"], g["pm_noise_rms_rad"], rtol=1e-3, atol=1e-3 * s / A, what="phase noise in radians in other units")
        q = m.call(rearrange_error_by_phase, x, norm_freq=f if given else None, n_bins=nb, return_fit=True)
        m.close("fit report", [q["fit"]["frequency"], q["fit"]["amplitude"]], [f, A], rtol=0.02, what="reported fit")
        if "disp" not in kw and kind != "both":
            t = m.call(plot_error_hist_phase, x, bins=nb, freq=f if given else None, disp=0)
            m.close("legacy", t[1], g["bin_error_rms_v"], atol=0, what="legacy rms per phase group")
            m.close("legacy", [t[3], t[4]], [g["am_noise_rms_v"], g["pm_noise_rms_v"]], atol=0, what="legacy noise parts")
    elif kind in ("value", "shape"):
        kw = dict(n_bins=nb)
        scale = gen.pick(rng, ["half", "unit", "zero-one", "codes", "given"])
        if scale == "unit":
            x = x * 2
            rg = (-1.0, 1.0)
        elif scale == "zero-one":
            x = x + 0.5
            rg = (0.0, 1.0)
        elif scale == "codes":
            x = x * 1000 + rng.uniform(-500, 2000)
            rg = None
        elif scale == "given":
            x = x * 3 + rng.uniform(-2, 2)
            rg = (float(x.min() + rng.uniform(-1, 0.5)), float(x.max() + rng.uniform(-0.5, 1)))
            kw["value_range"] = rg
        else:
            rg = (-0.5, 0.5)
        if scale == "codes":
            rg = (float(x.min()), float(x.max()))
        if kind == "shape":
            # an error that depends on the value only
            mid, hw = (x.max() + x.min()) / 2, np.ptp(x) / 2
            g0 = 0.02 * hw
            u = (x - mid) / hw
            x = x + g0 * u ** 2
            if scale == "codes":
                rg = (float(x.min()), float(x.max()))
        clip = gen.pick(rng, [0.01, 0.0, 0.05, 0.2])
        if clip != 0.01 or rng.random() < 0.5:
            kw["clip_percent"] = clip
        if given:
            kw["norm_freq"] = f
        keep = x.copy()
        fn = gen.pick(rng, [rearrange_error_by_value, analyze_error_by_value])
        if fn is analyze_error_by_value:
            kw["create_plot"] = False
        if rg[0] <= 0 <= rg[1] and scale == "half" and np.max(np.abs(x)) > 0.59:
            return m.skip("range inference is a heuristic near its limits")
        g = m.call(fn, x, **kw)
        m.equal("input kept", x, keep, "caller's record")
        m.close("error record", g["error"], x - g["fitted_signal"], atol=1e-10 * np.ptp(x), what="error = record minus fitted sine")
        m.close("centres", g["value_bin_centers"], rg[0] + (rg[1] - rg[0]) * np.arange(nb) / (nb - 1), atol=1e-9 * np.ptp(x), what="value at group centres (%s)" % scale)
        v = (x - rg[0]) / (rg[1] - rg[0]) * (nb - 1)
        idx = np.clip(np.round(v), 0, nb - 1).astype(int)
        sure = np.abs(v - np.floor(v) - 0.5) > 1e-7
        m.equal("value membership", np.asarray(g["bin_indices"])[sure], idx[sure], "group of each sample (%s range)" % scale)
        mar = int(nb * clip)
        if abs(nb * clip - round(nb * clip)) < 1e-9 and nb * clip != mar:
            mar = None
        if np.all(sure) and mar is not None:
            ok = (idx >= mar) & (idx <= nb - 1 - mar)
            cnt, mean, rms = groups(idx[ok], g["error"][ok], nb)
            m.close("group counts", g["count_per_bin"], cnt, atol=0, what="samples per value group")
            m.close("group mean", g["error_mean"], mean, atol=1e-9 * np.ptp(x), what="mean error per value group")
            m.close("group rms", g["error_rms"], rms, atol=1e-9 * np.ptp(x), what="rms error per value group")
            m.close("edge share", np.asarray(g["count_per_bin"])[np.r_[0:mar, nb - mar:nb]], np.zeros(2 * mar), atol=0, what="outermost groups are left out")
        B = np.column_stack([np.cos(2 * np.pi * f * n), np.sin(2 * np.pi * f * n), np.ones(N)])
        own = x - B @ np.linalg.lstsq(B, x, rcond=None)[0]
        # the toolbox fits the tone in one step; the shape is judged where that step found the tone
        if kind == "shape" and nb > 12 and abs(gen.fold(2 * b, N) - b) > 30 and np.std(g["error"]) < 1.02 * np.std(own):
            ctr = (np.asarray(g["value_bin_centers"]) - mid) / hw
            good = (np.asarray(g["count_per_bin"]) > 6) & (np.abs(ctr) < 0.9)
            good[[0, -1]] = False  # samples beyond the range are collected there
            if good.sum() > 6 and ctr[good].min() < -0.7 and ctr[good].max() > 0.7 and np.abs(ctr[good]).min() < 0.2:
                # the fitted sine absorbs the mean of the quadratic error, not its shape
                k2 = np.polyfit(ctr[good], np.asarray(g["error_mean"])[good] / hw, 2)[0]
                m.close("value shape", k2, 0.02, atol=0.006 + 3 * s / A / np.sqrt(N / nb), what="curvature of the error against value")
        if rng.random() < 0.5:
            t = m.call(plot_error_hist_code, x, bins=nb, freq=f if given else None, disp=0, **{k_: v_ for k_, v_ in kw.items() if k_ in ("clip_percent", "value_range")})
            m.close("legacy", t[1], g["error_rms"], atol=0, what="legacy rms per value group")
        m.check("value shape", True)
    elif kind == "sparse":
        # more groups than distinct phases: groups without samples have no mean and no rms
        N = gen.pick(rng, [128, 200, 256])
        n = np.arange(N)
        b = gen.ri(rng, 20, N // 2 - 20)
        f = b / N
        x = A * np.cos(2 * np.pi * f * n + p0) + dc + s * rng.standard_normal(N)
        nb = gen.ri(rng, N // 2, 2 * N)
        g = m.call(rearrange_error_by_phase, x, norm_freq=f, n_bins=nb)
        phase_groups(m, g, x, nb, A)
        empty = np.asarray(g["bin_counts"]) == 0
        m.check("group rms", np.all(np.isnan(np.asarray(g["bin_error_rms_v"])[empty])) and np.all(np.isnan(np.asarray(g["bin_error_mean_v"])[empty])), "a phase group without samples shows an error")
        rg = (float(x.min()), float(x.max()))
        g = m.call(rearrange_error_by_value, x, norm_freq=f, n_bins=nb, value_range=rg, clip_percent=0.0)
        empty = np.asarray(g["count_per_bin"]) == 0
        m.check("group rms", np.all(np.isnan(np.asarray(g["error_rms"])[empty])) and np.all(np.isnan(np.asarray(g["error_mean"])[empty])), "a value group without samples shows an error")
        m.equal("group counts", int(np.sum(g["count_per_bin"])), N, "every sample is counted once")
    elif kind == "range":
        # voltage ranges recognised from the record: [0,1] when it sits above zero, [-0.5,0.5] when small, [-1,1] otherwise
        which = gen.pick(rng, ["unipolar", "small", "large", "negative"])
        a_, d_, rg = {"unipolar": (rng.uniform(0.02, 0.5), rng.uniform(0.13, 0.6), (0.0, 1.0)), "small": (rng.uniform(0.1, 0.58), 0.0, (-0.5, 0.5)),
                      "large": (rng.uniform(0.63, 1.8), 0.0, (-1.0, 1.0)), "negative": (rng.uniform(0.3, 0.9), rng.uniform(-1.0, -0.35), (-1.0, 1.0))}[which]
        x = a_ * np.cos(ph) + d_ + 1e-4 * a_ * rng.standard_normal(N)
        g = m.call(rearrange_error_by_value, x, n_bins=nb, **gen.pick(rng, [{}, dict(norm_freq=float("nan")), dict(norm_freq=f)]))
        m.close("centres", np.asarray(g["value_bin_centers"])[[0, -1]], rg, atol=1e-12, what="range recognised for a %s record (amplitude %.3f around %.3f)" % (which, a_, d_))
        m.close("fit report", g["norm_freq"], f, atol=0.02 / N, what="frequency reported")
        m.close("error record", g["error"], x - g["fitted_signal"], atol=1e-10, what="error = record minus fitted sine")
        v = (x - rg[0]) / (rg[1] - rg[0]) * (nb - 1)
        sure = np.abs(v - np.floor(v) - 0.5) > 1e-7
        m.equal("value membership", np.asarray(g["bin_indices"])[sure], np.clip(np.round(v), 0, nb - 1).astype(int)[sure], "group of each sample (%s record)" % which)
    elif kind == "plot":
        for fn, key, kk in ((analyze_error_by_phase, "bin_error_rms_v", {}), (analyze_error_by_value, "error_rms", {})):
            g = m.call(fn, x, n_bins=nb, create_plot=False)
            q = m.call(fn, x, n_bins=nb, create_plot=True)
            m.close("plot independence", q[key], g[key], atol=0, what="%s with a plot" % fn.__name__)
            plt.close("all")
    else:
        fn = rearrange_error_by_value
        for kw in (dict(n_bins=0), dict(n_bins=-3), dict(n_bins=2.5), dict(clip_percent=-0.1), dict(clip_percent=np.nan), dict(clip_percent=0.5), dict(value_range=(1, 1)), dict(value_range=(1, 0)),
                   dict(value_range=(0, np.inf)), dict(value_range=(0, 1, 2)), dict(value_range=(np.nan, 1)), dict(value_range=(-np.inf, 1)), dict(value_range=(0, np.nan))):
            m.expect_raise("rejects", ValueError, fn, x, **kw)
        m.expect_raise("rejects", ValueError, fn, x, n_bins=50, clip_percent=0.3, value_range=(float(x.max()) + 1, float(x.max()) + 2))
        q1, q2 = m.call(fn, x, n_bins=None), m.call(fn, x, n_bins=100)
        m.close("units", q1["error_rms"], q2["error_rms"], atol=0, what="number of groups not given")
        for bad in (np.array([]), np.append(x, np.nan), np.append(x, np.inf)):
            m.expect_raise("rejects", ValueError, fn, bad)
    m.nontrivial()
    m.sample(kind=kind, N=N, groups=nb, bin=b)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
