"""C35 figures show exactly what was computed: curves, markers, printed numbers with their units, dashboards and saved files."""
import contextlib
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import _boot  # noqa: F401
import numpy as np
import matplotlib.pyplot as plt
import vmon
import gen
import sarsim
import figs
from adctoolbox import aout, dout, spectrum, toolset, oversampling
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.spectrum import compute_spectrum
from adctoolbox.toolset import generate_aout_dashboard_3x4 as three

logging.getLogger("matplotlib").setLevel(logging.ERROR)
PROPERTY = "C35"
RULE = "records with a tone, harmonics, a dominant spur and noise; converters with unequal codes; bit matrices; drawn through every plotting entry point on current, given and split axes; non-trivial = something was drawn"
REQUIRED_ORACLES = ["polar direction", "radial scale", "given axes", "spectrum curve", "spectrum numbers", "frequency label", "tone marker", "harmonic marker", "spur marker", "noise line", "notes", "bare plot", "title", "polar points", "polar numbers",
                    "dnl inl curves", "dnl inl numbers", "density", "autocorrelation", "error by phase", "error by phase numbers", "error by value", "decomposition in time", "decomposition polar",
                    "phase plane", "error phase plane", "bit activity", "overflow", "radix", "resolution sweep", "residual scatter", "oversampling sweep", "error spectrum", "noise transfer",
                    "dashboard panels", "dashboard file", "dashboard figures", "in view", "sweep markers", "slope", "overflow groups", "nothing drawn"]
MIN_NONTRIVIAL = {"quick": 80, "thorough": 700}
KINDS = ["spectrum", "virtuoso", "polar", "inl", "pdf", "phase", "value", "dtime", "dpolar", "pplane", "eplane", "bits", "sweep", "espec", "spectrum", "ntf", "sweep", "virtuoso", "polar", "noplot"]


def cases(rng, tier):
    for i in range(400 if tier == "quick" else 2400):
        yield {"seed": gen.seed_of(rng), "kind": KINDS[i % len(KINDS)]}
    for i in range(4 if tier == "quick" else 12):
        for d in ("dash8", "dash12", "dashd"):
            yield {"seed": gen.seed_of(rng), "kind": d}


def record(rng, N=None, spur=False, low=False, clean=False):
    """tone + harmonics + optional dominant spur + noise; returns x, tone bin, spur bin"""
    N = N or gen.pick(rng, [512, 1000, 1024, 2048])
    b = gen.coprime_bin(rng, N, 15, int((0.099 if low else 0.47) * N))
    n = np.arange(N)
    A = gen.logu(rng, 0.05, 20)
    ph = rng.uniform(0, 6.28)
    x = A * np.sin(2 * np.pi * b * n / N + ph)
    for k in (2, 3) if clean else (2, 3, 4):
        x = x + A * 10 ** rng.uniform(-3.5, -2.2) * np.sin(k * 2 * np.pi * b * n / N + rng.uniform(0, 6.28))
    s = None
    if spur:
        taken = [gen.fold(k * b, N) for k in range(0, 13)]
        for _ in range(100):
            s = gen.ri(rng, 20, int(0.48 * N))
            if all(abs(s - t) > 12 for t in taken):
                break
        else:
            s = None
        if s is not None:
            x = x + 0.05 * A * np.sin(2 * np.pi * s * n / N + rng.uniform(0, 6.28))
    x = x + A * 10 ** (-5.5 if clean else rng.uniform(-4.5, -2.5)) * rng.standard_normal(N) + A * rng.uniform(-1, 1)
    return x, b, s


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def stage(rng, polar=False):
    """A figure to draw on: (figure, axes passed explicitly or None)."""
    fig = plt.figure(figsize=(6, 4))
    sub = dict(projection="polar") if polar else {}
    if rng.random() < 0.5:
        ax = fig.add_subplot(2, 2, 3, **sub)
        other = fig.add_subplot(2, 2, 1)
        other.set_title("bystander")
        if rng.random() < 0.5:
            plt.sca(ax)
            return fig, None
        return fig, ax
    if rng.random() < 0.4:  # axes placed by hand, outside any grid
        other = fig.add_axes([0.1, 0.75, 0.8, 0.2])
        other.set_title("bystander")
        ax = fig.add_axes([0.1, 0.1, 0.8, 0.5], **sub)
        return fig, (ax if rng.random() < 0.7 else None)
    fig.add_subplot(111, **sub)
    return fig, None


def pair(rng, fig, ax):
    """Sometimes two given axes (as a tuple, list or array) instead of one to be split."""
    if rng.random() < 0.7:
        return fig, dict(ax=ax), None
    plt.close(fig)
    fig = plt.figure(figsize=(6, 4))
    other = fig.add_subplot(3, 1, 3)
    other.set_title("bystander")
    two = (fig.add_subplot(3, 1, 1), fig.add_subplot(3, 1, 2))
    return fig, dict(axes=gen.pick(rng, [two, list(two), np.array(two, dtype=object)])), two


def own(fig):
    return [a for a in fig.axes if a.get_title() != "bystander"]


def hz(m, ax, fin, fs, kind="spectrum"):
    pre = {"": 1, "K": 1e3, "k": 1e3, "M": 1e6, "G": 1e9}
    q = [g for t in figs.texts(ax) for g in [re.search(r"Fin\s*/\s*fs\s*=\s*" + figs.NUM + r"\s*([KkMG]?)\s*/\s*" + figs.NUM + r"\s*([KkMG]?)\s*Hz", t, re.I)] if g]
    if m.check("frequency label", len(q) == 1, lambda: "input and sampling frequency not printed once (texts %s)" % figs.texts(ax)[:12]):
        for s, p, v, name in ((q[0].group(1), q[0].group(2), fin, "input"), (q[0].group(3), q[0].group(4), fs, "sampling")):
            m.check("frequency label", figs.agrees(s, v / pre[p]), lambda: "%s frequency %.9g Hz shown as %s%s Hz" % (name, v, s, p))
            if v >= 0.003 and kind == "spectrum":
                m.check("frequency label", abs(float(s) * pre[p] - v) < 0.3 * v, lambda: "%s frequency %.9g Hz cannot be read from %s%s Hz" % (name, v, s, p))


def run_spectrum(c, m, rng, kind):
    runs = gen.pick(rng, [1, 1, 1, 2, 4])
    x, b, s = record(rng, spur=rng.random() < 0.6, low=rng.random() < 0.3)
    N = len(x)
    collide = rng.random() < 0.3
    if collide:  # third harmonic folds back onto the tone
        N = gen.pick(rng, [512, 1024])
        b, s = N // 4, None
        x = np.sin(2 * np.pi * b * np.arange(N) / N + 0.4) * 3 + 1e-3 * rng.standard_normal(N)
    if runs > 1:
        x = np.stack([x + 1e-4 * np.std(x) * rng.standard_normal(N) for _ in range(runs)])
    fs = gen.logu(rng, 0.5, 2e10) if rng.random() < 0.8 else gen.logu(rng, 0.5, 20)
    osr = gen.pick(rng, [1, 2, 4, 2.5]) if b < N // 10 else 1
    win = gen.pick(rng, ["hann", "rectangular", "blackman", "hamming"])
    up = gen.pick(rng, [3, 3, 0, 2, 5, 7])
    mh = gen.pick(rng, [5, 5, 3, 7])
    coh = bool(runs > 1 and rng.random() < 0.5)
    if coh:
        win = "rectangular"
    kw = dict(fs=fs, osr=osr, win_type=win, max_harmonic=mh, coherent_averaging=coh, nf_method=gen.pick(rng, [0, 0, 1, 2, 3]))
    label = rng.random() < 0.85
    title = rng.random() < 0.7
    f = spectrum.analyze_spectrum if kind == "spectrum" else spectrum.analyze_spectrum_virtuoso
    fig, ax = stage(rng)
    with quiet():
        res = m.call(f, x, show_label=label, show_title=title, plot_harmonics_up_to=up, ax=ax, **kw)
        full = m.call(compute_spectrum, x, **kw)
    P = full["plot_data"]
    A = own(fig)
    m.check("title", len(A) == 1 and len(fig.axes) - len(A) in (0, 1), "drawing a spectrum changed the number of axes")
    a = A[0]
    m.nontrivial(True)
    freq, sp = np.asarray(P["freq"]), np.asarray(P["power_spectrum_db_plot"])
    if kind == "spectrum":
        figs.curve(m, "spectrum curve", a, freq, sp, "the computed power spectrum")
        m.check("spectrum curve", near1(freq, np.arange(len(freq)) * fs / N), "frequency axis is not bin times fs/N")
    else:
        seg = [np.asarray(q.get_segments()) for q in a.collections if type(q).__name__ == "LineCollection"]
        seg = [q for q in seg if len(q) == len(freq)]
        ok = any(figs.near(q[:, 0, 0], freq) and (figs.near(q[:, 1, 1], sp) or figs.near(q[:, 0, 1], sp)) for q in seg)
        m.check("spectrum curve", ok, "stems are not the computed spectrum")
    if title:
        t = a.get_title()
        if kind == "spectrum":
            m.check("title", bool(t) and (runs == 1 or str(runs) in t) and ((("oherent" in t) == coh) if runs > 1 else True), "title %r for %d runs, coherent=%s" % (t, runs, coh))
        else:
            m.check("title", bool(t), "no title")
    else:
        m.check("title", not a.get_title() or a.get_title() == "bystander", "title shown although switched off")
    if not label:
        m.check("bare plot", not figs.find(a, "SNDR") and not figs.find(a, "ENOB") and not any("MaxSpur" in t for t in figs.texts(a)), "annotations drawn although labels are off")
        return
    if kind == "spectrum":
        m.check("spectrum curve", "dBFS" in a.get_ylabel() and "Hz" in a.get_xlabel(), "axes labelled %r, %r" % (a.get_xlabel(), a.get_ylabel()))
        for u, v in figs.lines(a):  # highlighted stretches lie on the curve
            if 2 < u.size < len(freq):
                j = np.clip(np.round(u * N / fs).astype(int), 0, len(freq) - 1)
                m.check("spectrum curve", figs.near(u, freq[j]) and figs.near(v, sp[j]), "a highlighted stretch of %d bins is not on the curve" % u.size)
    O = "spectrum numbers"
    figs.printed(m, O, a, r"ENO?B", res["enob"])
    figs.printed(m, O, a, r"SNDR", res["sndr_dbc"], r"dB")
    figs.printed(m, O, a, r"SFDR", res["sfdr_dbc"], r"dB")
    figs.printed(m, O, a, r"THD", res["thd_dbc"], r"dB")
    figs.printed(m, O, a, r"SNR", res["snr_dbc"], r"(?:dB)?")
    figs.printed(m, O, a, r"Noise Floor", res["noise_floor_dbfs"], r"(?:dB)?")
    figs.printed(m, O, a, r"NSD", res["nsd_dbfs_hz"], r"(?:dBFS/Hz)?")
    figs.printed(m, O, a, r"Sig", res["sig_pwr_dbfs"], r"dB")
    hz(m, a, b / N * fs, fs, kind)
    m.check("in view", a.get_xlim()[0] <= fs / N * (1 + 1e-9) and a.get_xlim()[1] >= fs / 2 * (1 - 1e-9), "horizontal range %s does not show all frequencies up to %g" % (a.get_xlim(), fs / 2))
    floor = np.median(sp[1:N // (2 * int(np.ceil(osr)))])
    if kind == "virtuoso":  # range laid out from the noise line
        floor = res["noise_floor_dbfs"] - 10 * np.log10(N / (2 * osr))
    if -190 < floor < -5:
        m.check("in view", a.get_ylim()[0] < floor and a.get_ylim()[1] >= 0, "vertical range %s leaves out the noise at %.4g dB or full scale" % (a.get_ylim(), floor))
    m.check("tone marker", figs.marker(a, b * fs / N, sp[b]), "no marker on the tone at bin %d" % b)
    # harmonics: at their folded places, none where it was not asked for or coincides with the tone
    nf = res["noise_floor_dbfs"] - 10 * np.log10(N / (2 * osr))
    for k in range(2, mh + 1):
        hb = gen.fold(k * b, N)
        shown = [t for t in a.texts if t.get_text() == str(k)]
        if k > up or hb == b:
            m.check("harmonic marker", not shown, "harmonic %d labelled although %s" % (k, "it falls onto the tone" if hb == b else "only up to %d was asked for" % up))
        elif hb > 12 and abs(hb - b) > 12 and np.isfinite(nf) and sp[hb] > nf - 15 and osr == 1:
            # the tone frequency is estimated, so the place may be a neighbouring bin; the marker sits on the curve there
            j = int(round(shown[0].get_position()[0] * N / fs)) if len(shown) == 1 else -1
            ok = 0 <= j < len(sp) and abs(j - hb) <= 1 and figs.marker(a, j * fs / N, sp[j])
            m.check("harmonic marker", ok, lambda: "harmonic %d expected at bin %d, labels at %s" % (k, hb, [t.get_position()[0] * N / fs for t in shown]))
    spt = [t for t in a.texts if "spur" in t.get_text().lower()]
    if m.check("spur marker", len(spt) == 1, "largest spur labelled %d times" % len(spt)):
        px = spt[0].get_position()[0]
        m.check("spur marker", figs.marker(a, px), "spur label without a marker at its frequency")
        lim = a.get_ylim()
        j = int(round(px * N / fs))
        if 0 < j < len(sp) and lim[0] + 8 < sp[j] < lim[1]:
            m.check("spur marker", spt[0].get_visible(), "label of the largest spur is hidden although the spur is at %.4g dB in %s" % (sp[j], lim))
            a.set_ylim(sp[j] + 0.5, max(lim[1], sp[j] + 40))
            m.check("spur marker", not spt[0].get_visible(), "label of the largest spur shown although zooming left the spur outside")
            a.set_ylim(*lim)
            m.check("spur marker", spt[0].get_visible() and lim[0] <= spt[0].get_position()[1] <= lim[1], "label of the largest spur does not come back into view")
        if s is not None and osr == 1:
            m.check("spur marker", abs(px * N / fs - s) < 0.5, lambda: "largest spur is at bin %d, labelled at %.3f" % (s, px * N / fs))
    if np.isfinite(nf):
        ok = any(q.size == 2 and abs(y[0] - nf) < 1e-6 and abs(y[1] - nf) < 1e-6 and abs(q.max() - fs / 2 / osr) <= 1e-9 * fs for q, y in figs.lines(a))
        m.check("noise line", ok, "no horizontal line at the noise level per bin %.6g dB up to the band edge" % nf)
    up_lines = [q[0] for q, y in figs.lines(a) if q.size == 2 and q[0] == q[1]]
    m.check("notes", all(abs(q - fs / 2 / osr) <= 1e-9 * fs for q in up_lines) and (kind == "spectrum" or osr == 1 or len(up_lines) == 1), "vertical line at %s, band edge %g" % (up_lines, fs / 2 / osr))
    sg = [t for t in a.texts if t.get_text().startswith("Sig")]
    m.check("tone marker", all(abs(t.get_position()[0] - b / N * fs) <= 0.03 * fs for t in sg), "signal level written away from the tone")
    if osr > 1:
        figs.printed(m, "notes", a, r"OSR", osr)
    if coh and runs > 1:
        figs.printed(m, "notes", a, r"Coherent Gain", 10 * np.log10(runs), "dB")
    on = [k for k in range(2, mh + 1) if gen.fold(k * b, N) == b]
    off = [k for k in range(2, mh + 1) if abs(gen.fold(k * b, N) - b) > 12]
    t = [q for q in figs.texts(a) if "ollided" in q]
    hit = sorted(map(int, re.findall(r"HD(\d+)", t[0]))) if t else []
    m.equal("notes", hit, sorted(P["collided_harmonics"]), "harmonics noted as falling onto the tone")
    m.check("notes", set(on) <= set(hit) and not set(off) & set(hit), "noted as falling onto the tone: %s, true %s" % (hit, on))
    m.sample(kind=kind, fs=fs, texts=str(figs.texts(a)[:9]))


def near1(a, b):
    return figs.near(a, b)


def upright(m, a):
    """Angle zero at the top, clockwise, with angle labels to match."""
    m.check("polar direction", a.get_theta_direction() == -1 and abs(a.get_theta_offset() - np.pi / 2) < 1e-9, "angles do not run clockwise from the top")


def radial(m, a, level0, what):
    """Radial tick labels name the level in dB at their radius (level0 = level at the centre)."""
    n = 0
    for tick, lab in zip(a.get_yticks(), [t.get_text().replace("−", "-") for t in a.get_yticklabels()]):
        if re.fullmatch(r"-?\d+(\.\d+)?", lab):
            n += 1
            m.check("radial scale", abs(float(lab) - (tick + level0)) < 0.51, lambda: "%s: circle labelled %s dB is at %.4g dB" % (what, lab, tick + level0))
    m.check("radial scale", n >= 2, "%s: no level labels on the circles" % what)


def near_tone(hb, b):
    return abs(hb - b) < 4


def run_polar(c, m, rng):
    x, b, s = record(rng)
    N = len(x)
    if rng.random() < 0.4:  # harmonics that fall onto the tone, DC, Nyquist or the lowest bins
        N = gen.pick(rng, [512, 1024])
        b = gen.pick(rng, [N // 4, N // 3, (N + 2) // 3, N // 5, N // 2 - 1])
        n = np.arange(N)
        x = np.sin(2 * np.pi * b * n / N + rng.uniform(0, 6)) + sum(10 ** rng.uniform(-3, -2) * np.cos(2 * np.pi * k * b * n / N + rng.uniform(0, 6)) for k in (2, 3, 5)) + 1e-4 * rng.standard_normal(N)
    h = gen.pick(rng, [5, 3, 7])
    rr = gen.pick(rng, [None, None, 80, 120, 95, 73.0])
    fs = gen.logu(rng, 1, 1e9)
    fig, ax = stage(rng, polar=True)
    with quiet():
        res = m.call(spectrum.analyze_spectrum_polar, x, fs=fs, harmonic=h, fixed_radial_range=rr, ax=ax)
        full = m.call(compute_spectrum, x, fs=fs, win_type="boxcar", coherent_averaging=True, max_harmonic=max(3, h))
    a = own(fig)[0]
    m.nontrivial(True)
    upright(m, a)
    S = np.asarray(full["plot_data"]["complex_spectrum"])
    d = 20 * np.log10(np.abs(S) + 1e-20)
    pts = figs.points(a)
    if m.check("polar points", len(pts) == len(S), "%d points drawn for %d bins" % (len(pts), len(S))):
        inner = d > (-rr if rr else np.percentile(d, 1)) + 1e-6
        r0 = np.median(d[inner] - pts[inner, 1])
        m.close("polar points", pts[inner, 1], d[inner] - r0, atol=1e-6, what="radius against level in dB")
        if rr:
            m.close("polar points", r0, -rr, atol=1e-6, what="level at the centre")
        radial(m, a, r0, "polar spectrum")
        spokes = sum(1 for u, v in figs.lines(a) if u.size == 2 and v[0] == 0 and abs(u[1] - pts[b, 0]) < 1e-9 and abs(v[1] - pts[b, 1]) < 1e-6)
        m.check("tone marker", spokes >= 1, "no spoke from the centre to the tone")
        m.check("polar points", np.all(np.abs(pts[~inner, 1]) < 1e-5), "bins below the range are not at the centre")
        m.close("polar points", np.exp(1j * pts[inner, 0]), S[inner] / np.abs(S[inner]), atol=1e-7, what="angle against the bin's phase")
        m.check("tone marker", figs.marker(a, pts[b, 0], pts[b, 1]), "no marker on the tone")
        for k in range(2, h + 1):
            hb = gen.fold(k * b, N)
            lab = [t for t in a.texts if t.get_text() == str(k)]
            if hb == b:
                m.check("harmonic marker", not lab, "harmonic %d labelled although it falls onto the tone" % k)
            elif hb != 0 and not near_tone(hb, b):
                m.check("harmonic marker", figs.marker(a, pts[hb, 0], pts[hb, 1]) and len(lab) == 1, "harmonic %d not marked at its bin" % k)
    figs.printed(m, "polar numbers", a, "SNR", res["snr_dbc"], "dB")
    figs.printed(m, "polar numbers", a, "THD", res["thd_dbc"], "dB")
    for k in (2, 3):
        figs.printed(m, "polar numbers", a, "HD%d" % k, res["harmonics_dbc"][k - 2], "dB")
        hb = gen.fold(k * b, N)
        g = [float(v) for t in figs.texts(a) for v in re.findall(r"HD%d\s*=.*?∠\s*([-+\d.]+)" % k, t)]
        if hb == b:
            m.check("polar numbers", any(re.search(r"ollided[^\n]*HD%d\b" % k, t) for t in figs.texts(a)), "HD%d falls onto the tone but is not noted" % k)
        if g and hb != 0 and not near_tone(hb, b):
            e = (g[0] - np.degrees(np.angle(S[hb])) + 180) % 360 - 180
            m.check("polar numbers", abs(e) < 0.06, "HD%d angle shown %.1f, computed %.3f" % (k, g[0], np.degrees(np.angle(S[hb]))))


def run_inl(c, m, rng):
    K = 2 ** gen.ri(rng, 4, 9)
    w = np.maximum(rng.normal(1, rng.uniform(0.1, 0.6), K), 0.0)
    T = np.concatenate([[0], np.cumsum(w)])
    N = 20000
    nb = gen.pick(rng, [None, int(np.log2(K))])
    ct = gen.pick(rng, [None, "col one"])
    st = rng.random() < 0.8
    fig, ax = stage(rng)
    if rng.random() < 0.5:
        v = T[-1] / 2 * (1 + 1.05 * np.sin(2 * np.pi * 1237 * np.arange(N) / N + 0.3))
        codes = np.clip(np.searchsorted(T, v, side="right") - 1, 0, K - 1)
        r = m.call(aout.analyze_inl_from_sine, codes, num_bits=nb, ax=ax, show_title=st, col_title=ct)
        x1 = x2 = np.asarray(r["code"], float)
    else:
        fig, where, two = pair(rng, fig, ax)
        codes = np.clip(np.searchsorted(T, np.linspace(0, T[-1], N), side="right") - 1, 0, K - 1)
        r = m.call(aout.analyze_inl_from_ramp, codes, num_bits=int(np.log2(K)), show_title=st, col_title=ct, **where)
        nb = int(np.log2(K))
        x1, x2 = np.asarray(r["code"], float), np.asarray(r.get("transition_code", r["code"]), float)
    A = own(fig)
    m.nontrivial(True)
    m.check("dnl inl curves", len(A) == 2, "%d panels instead of two" % len(A))
    for a in A:
        unit = sorted(abs(v[0]) for u, v in figs.lines(a) if v.size == 2 and v[0] == v[1])
        m.check("dnl inl curves", unit == [1.0, 1.0], "lines at plus and minus one LSB missing, found %s" % unit)
    top = [a for a in A if "DNL" in a.get_ylabel()]
    bot = [a for a in A if "INL" in a.get_ylabel()]
    m.check("dnl inl curves", len(top) == 1 and len(bot) == 1, "panels are not labelled DNL and INL")
    for a, key, xx in ((top, "dnl", x1), (bot, "inl", x2)):
        y = np.asarray(r[key], float)
        got = [(u, v) for u, v in figs.lines(a) if v.size == y.size and figs.near(v, y)]
        if m.check("dnl inl curves", len(got) == 1, "%s curve is not the returned one" % key.upper()):
            figs.inview(m, "in view", a[0], y, key.upper(), got[0][0])
            sc = 1.0 if nb is None else 2.0 ** nb
            okx = figs.near(got[0][0] * sc, xx) or (key == "inl" and figs.near(got[0][0] * sc, x1)) or figs.near(got[0][0], xx)
            m.check("dnl inl curves", okx, "%s codes on the axis are not the returned codes" % key.upper())
        g = [q.groups() for t in figs.texts(a) for q in [re.search(key + r"\s*=\s*\[\s*" + figs.NUM + r"\s*,\s*" + figs.NUM + r"\s*\]\s*LSB", t, re.I)] if q]
        if st:
            if m.check("dnl inl numbers", len(g) == 1, "%s range is not in the title (%s)" % (key.upper(), figs.texts(a))):
                m.check("dnl inl numbers", figs.agrees(g[0][0], y.min()) and figs.agrees(g[0][1], y.max()), "%s range shown as %s, computed [%g, %g]" % (key.upper(), g[0], y.min(), y.max()))
            if key == "dnl" and ct:
                m.check("dnl inl numbers", any(ct in t for t in figs.texts(a)), "column title missing")
        else:
            m.check("dnl inl numbers", not g, "%s range shown although titles are off" % key.upper())


def run_error(c, m, rng, kind):
    x, b, _ = record(rng, clean=kind == "dpolar" and rng.random() < 0.4)
    N = len(x)
    fig, ax = stage(rng, polar=kind == "dpolar" and rng.random() < 0.5)
    title = gen.pick(rng, [None, "given title"])
    kw = dict(ax=ax, title=title)
    if kind == "pdf":
        res = gen.pick(rng, [8, 10, 12, 14])
        r = m.call(aout.analyze_error_pdf, x, resolution=res, **kw)
        a = own(fig)[0]
        figs.curve(m, "density", a, r["x"], r["pdf"], "the error density")
        figs.curve(m, "density", a, r["x"], r["gauss_pdf"], "the normal density")
        figs.printed(m, "density", a, "[μµ]", r["mu"], "LSB", "mean")
        figs.printed(m, "density", a, "σ", r["sigma"], "LSB", "sigma")
        figs.printed(m, "density", a, "KL", r["kl_divergence"], "", "divergence")
        fig2, ax2 = stage(rng)
        L = gen.pick(rng, [20, 50, 100])
        q = m.call(aout.analyze_error_autocorr, x, max_lag=L, normalize=bool(rng.random() < 0.5), ax=ax2)
        figs.curve(m, "autocorrelation", own(fig2), q["lags"], q["acf"], "the autocorrelation")
    elif kind == "phase":
        nb = gen.pick(rng, [20, 50, 100])
        ib = bool(rng.random() < 0.7)
        scale = 10 ** rng.uniform(-7, 2)
        fig, where, two = pair(rng, fig, ax)
        r = m.call(aout.analyze_error_by_phase, x * scale, n_bins=nb, include_base_noise=ib, title=title, **where)
        A = own(fig)
        if two:
            m.check("given axes", all(q in A for q in two) and len(A) == 3, "given axes were replaced or others added")
        bars = [a for a in A if a.patches]
        if m.check("error by phase", len(bars) == 1, "%d bar panels" % len(bars)):
            ctr = np.degrees(r["phase_bin_centers_rad"])
            figs.bars(m, "error by phase", bars[0], ctr, r["bin_error_rms_v"], "rms per phase group")
            figs.curve(m, "error by phase", A, ctr, r["bin_error_mean_v"], "mean per phase group")
            figs.inview(m, "in view", bars[0], r["bin_error_rms_v"], "rms per phase group", ctr)
            for q in A:
                if any(v.shape == np.shape(r["error"]) and figs.near(v, r["error"]) for u, v in figs.lines(q)):
                    figs.inview(m, "in view", q, r["error"], "error against phase")
            ph = np.degrees(r["phase"]) % 360
            figs.curve(m, "error by phase", A, ph, r["error"], "error against phase")
            o = np.argsort(ph)
            figs.curve(m, "error by phase", A, ph[o], np.asarray(r["fitted_signal"])[o], "fitted sine against phase")
            O = "error by phase numbers"
            figs.si(m, O, bars, r"AM", r["am_noise_rms_v"], "V")
            figs.si(m, O, bars, r"PM", r["pm_noise_rms_v"], "V")
            g = [float(v) for t in figs.texts(bars) for v in re.findall(r"\(\s*([\d.]+)\s*urad", t)]
            m.check(O, len(g) == 1 and abs(g[0] - r["pm_noise_rms_rad"] * 1e6) <= 0.0051 + 1e-9 * g[0], "phase noise shown as %s urad, computed %g" % (g, r["pm_noise_rms_rad"] * 1e6))
            if ib:
                figs.si(m, O, bars, r"Base Noise", r["base_noise_rms_v"], "V")
            else:
                m.check(O, not any("Base" in t for t in figs.texts(bars)), "base noise listed although left out")
            figs.si(m, O, bars, r"Total", r["total_rms_v"], "V")
            figs.printed(m, O, bars, r"R²", r["r_squared_binned"])
            # the model curves behind the printed numbers
            h, lab = bars[0].get_legend_handles_labels()
            c2, s2 = np.cos(r["phase_bin_centers_rad"]) ** 2, np.sin(r["phase_bin_centers_rad"]) ** 2
            am, pm, bn = r["am_noise_rms_v"] ** 2, r["pm_noise_rms_v"] ** 2, r["base_noise_rms_v"] ** 2
            model = {"AM": am * c2 + bn, "PM": pm * s2 + bn, "Base": bn + 0 * c2, "Total": am * c2 + pm * s2 + bn}
            for name, y in model.items():
                q = [k for k, t in zip(h, lab) if t.startswith(name)]
                if name == "Base" and not ib:
                    continue
                ok = len(q) == 1 and figs.near(q[0].get_xdata(), ctr) and figs.near(np.square(q[0].get_ydata()), y, scale=max(am + pm + bn, 1e-290))
                m.check("error by phase", ok, "%s model curve is not the one of the printed strengths" % name)
            leg = [q.get_legend() for q in A if q is not bars[0] and q.get_legend() is not None]
            named = {t.get_text(): k for g_ in leg for t, k in zip(g_.get_texts(), g_.legend_handles)}
            m.check("error by phase", len(leg) == 1 and len(named) == 3, "upper legend lists %s" % sorted(named))
    elif kind == "value":
        nb = gen.pick(rng, [20, 50, 100])
        fig, where, two = pair(rng, fig, ax)
        r = m.call(aout.analyze_error_by_value, x, n_bins=nb, title=title, **where)
        A = own(fig)
        if two:
            m.check("given axes", all(q in A for q in two) and len(A) == 2, "given axes were replaced or others added")
        sc = [a for a in A if len(a.collections)]
        br = [a for a in A if a.patches]
        if m.check("error by value", len(sc) == 1 and len(br) == 1, "expected one scatter and one bar panel"):
            vc = np.asarray(r.get("value_bin_centers", r["bin_centers"]), float)
            figs.cloud(m, "error by value", sc, vc[np.asarray(r["bin_indices"])], r["error"], "error against value")
            figs.curve(m, "error by value", sc, vc, r["error_mean"], "mean per value group")
            figs.bars(m, "error by value", br, vc, r["error_rms"], "rms per value group")
            figs.inview(m, "in view", sc[0], r["error"], "error against value", vc)
            figs.inview(m, "in view", br[0], r["error_rms"], "rms per value group", vc)
    elif kind == "dtime":
        cyc = gen.pick(rng, [1.5, 3.0, 5.0])
        if rng.random() < 0.6:  # largest error near either end, or somewhere, of either sign
            x[gen.pick(rng, [0, 2, N - 1, N - 3, gen.ri(rng, 5, N - 5)])] += rng.choice([-1, 1]) * np.ptp(x)
        r = m.call(aout.analyze_decomposition_time, x, n_cycles=cyc, **kw)
        A = own(fig)
        L = list(figs.lines(A))
        if m.check("decomposition in time", len(A) == 2 and len(L) == 4, "%d panels, %d curves" % (len(A), len(L))):
            parts = {"signal": x, "fundamental": r["fundamental_signal"], "harmonics": r["harmonic_signal"], "remainder": r["noise_residual"]}
            i0 = int(round(L[0][0][0])) - 1
            for name, y in parts.items():
                ok = any(figs.near(v, np.asarray(y)[int(round(u[0])) - 1:int(round(u[-1]))], scale=np.abs(x).max()) and figs.near(u, np.arange(u[0], u[0] + len(u))) for u, v in L if len(u) and u[0] >= 1)
                m.check("decomposition in time", ok, "%s is not drawn at its sample numbers" % name)
            worst = int(np.argmax(np.abs(x - r["fundamental_signal"])))
            m.check("decomposition in time", i0 <= worst < i0 + len(L[0][0]), "the largest error (sample %d) is not in view" % worst)
            f1 = r["fundamental_freq"]
            lo, hi = min(int(cyc * int(1 / f1)), N), min(int(np.ceil(cyc / f1)), N)
            m.check("decomposition in time", all(lo - 1 <= len(u) <= hi + 1 for u, v in L), "%s samples shown for %g periods of %.4g" % ([len(u) for u, v in L], cyc, 1 / f1))
            for a in A:
                for u, v in figs.lines(a):
                    if "sine" not in str([t for t in a.get_legend_handles_labels()[1]]):
                        figs.inview(m, "in view", a, v, "error parts over time", u)
                    elif figs.near(v, x[i0:i0 + len(v)]):
                        figs.inview(m, "in view", a, v, "signal over time", u)
            for a in A:
                h, lab = a.get_legend_handles_labels()
                m.check("decomposition in time", len(lab) == 2, "panel without a legend for its two curves")
                for ln, t in zip(h, lab):
                    y = parts["signal"] if "signal" in t else parts["fundamental"] if "sine" in t else parts["harmonics"] if "harm" in t else parts["remainder"]
                    m.check("decomposition in time", figs.near(ln.get_ydata(), np.asarray(y)[i0:i0 + len(ln.get_ydata())], scale=np.abs(x).max() * 1e-2), "curve labelled %r is another part" % t)
    elif kind == "dpolar":
        h = gen.pick(rng, [3, 5, 7])
        r = m.call(aout.analyze_decomposition_polar, x, harmonic=h, **kw)
        a = [q for q in own(fig) if q.name == "polar"]
        if m.check("decomposition polar", len(a) == 1, "no polar panel"):
            a = a[0]
            one = [(u[0], v[0]) for u, v in figs.lines(a) if u.size == 1]
            db, ph = np.asarray(r["magnitudes_db"], float)[:h], np.asarray(r["phases"], float)[:h]
            if m.check("decomposition polar", len(one) == h, "%d markers for %d parts" % (len(one), h)):
                rad = np.array([q[1] for q in one])
                ang = np.array([q[0] for q in one])
                m.close("decomposition polar", rad - rad[0], db - db[0], atol=1e-6, what="radius against level in dB")
                m.close("decomposition polar", np.exp(1j * ang), np.exp(1j * ph), atol=1e-7, what="angle against phase")
                radial(m, a, db[0] - rad[0], "polar decomposition")
                upright(m, a)
                m.check("in view", a.get_ylim()[0] <= 0 and a.get_ylim()[1] >= rad.max() - 1e-6, "polar decomposition: radial range %s leaves out a part at radius %g" % (a.get_ylim(), rad.max()))
                m.check("in view", rad.min() >= -1e-6 and r["noise_db"] - db[0] + rad[0] >= -1e-6, "polar decomposition: part or remainder below the centre")
                ring = [v for u, v in figs.lines(a) if u.size > 20 and np.ptp(v) < 1e-9 and np.ptp(u) > 6.2]
                m.check("decomposition polar", len(ring) == 1 and abs(ring[0][0] - (r["noise_db"] - db[0] + rad[0])) < 1e-6, "remainder circle is not at the remainder's level")
            figs.printed(m, "decomposition polar", a, r"(?:Residue Errors|Residual)", r["noise_db"], "dB", "remainder")
            for k in range(1, h + 1):
                lab = [t for t in a.texts if t.get_text() == str(k)]
                m.check("decomposition polar", len(lab) == 1 and abs(lab[0].get_position()[1] - (db[k - 1] - db[0] + rad[0])) < 1e-6, "part %d is not labelled at its marker" % k)
    elif kind == "pplane":
        if rng.random() < 0.25:  # long enough for the density form of the picture
            x = np.tile(x, -(-gen.pick(rng, [20100, 24000, 33000]) // N))
            N = len(x)
            x = x + 1e-4 * np.ptp(x) * rng.standard_normal(N)
        if rng.random() < 0.7:
            i = rng.choice(np.arange(20, N - 20), gen.ri(rng, 1, 4), replace=False)
            x[i] += rng.choice([-1, 1], len(i)) * np.ptp(x)
        lag = gen.pick(rng, ["auto", 1, 3, 7])
        r = m.call(aout.analyze_phase_plane, x, lag=lag, **kw)
        a = own(fig)
        k = r["lag"]
        m.check("phase plane", lag == "auto" or k == lag, "lag %s used for %s" % (k, lag))
        dens = [q for q in a[0].collections if q.get_array() is not None and len(q.get_array()) == len(q.get_offsets()) > 50]
        if dens:  # cells with counts in place of single points
            o = np.asarray(r["outliers"], int)
            keep = np.setdiff1d(np.arange(k, N), o)
            cnt, at = np.asarray(dens[0].get_array(), float), np.asarray(dens[0].get_offsets())
            m.check("phase plane density", len(dens) == 1 and abs(cnt.sum() - len(keep)) < 0.5, "density cells hold %g points of %d" % (cnt.sum(), len(keep)))
            for got, want, name in ((at[:, 0], x[keep - k], "x[n]"), (at[:, 1], x[keep], "x[n+k]")):
                cell = np.ptp(want) / 40
                m.check("phase plane density", abs(np.average(got, weights=cnt) - want.mean()) < cell and abs(got.min() - want.min()) < 2 * cell and abs(got.max() - want.max()) < 2 * cell, "density cells do not lie where %s does" % name)
            corr = np.average((at[:, 0] - x.mean()) * (at[:, 1] - x.mean()), weights=cnt) / np.mean((x[keep - k] - x.mean()) ** 2)
            true = np.mean((x[keep - k] - x.mean()) * (x[keep] - x.mean())) / np.mean((x[keep - k] - x.mean()) ** 2)
            m.check("phase plane density", abs(corr - true) < 0.1, "density cells have correlation %.3f, the samples %.3f" % (corr, true))
        else:
            figs.cloud(m, "phase plane", a, x[:-k], x[k:], "trajectory")
        figs.printed(m, "phase plane", a, "Lag", k)
        figs.printed(m, "phase plane", a, "Outliers", len(r["outliers"]))
        red = [np.asarray(q.get_offsets()) for q in a[0].collections if len(q.get_offsets()) == len(r["outliers"])]
        if len(r["outliers"]):
            o = np.asarray(r["outliers"])
            m.check("phase plane", any(figs.near(np.sort(q[:, 0]), np.sort(x[o - k])) and figs.near(np.sort(q[:, 1]), np.sort(x[o])) for q in red), "the marked points are not the reported outliers")
            for t in a[0].texts:
                q = re.fullmatch(r"idx:\s*(\d+)", t.get_text())
                if q:
                    i = int(q.group(1))
                    m.check("phase plane", i in o and figs.near(np.array(t.xy), np.array([x[i - k], x[i]])), "outlier number %d written at another point" % i)
    elif kind == "eplane":
        mode = gen.pick(rng, ["auto", "normalized_fs", "voltage", "code"])
        if rng.random() < 0.5:
            x = x / np.abs(x).max() * gen.pick(rng, [500.0, 30.0, 1.0])
        r = m.call(aout.analyze_error_phase_plane, x, unit_mode=mode, detect_hysteresis=bool(rng.random() < 0.5), **kw)
        a = own(fig)
        real = mode if mode != "auto" else ("voltage" if np.abs(x).max() < 50 else "code")
        k, u = {"voltage": (1e6, "[uµμ]V"), "normalized_fs": (1e6, "[uµμ]FS"), "code": (1.0, "LSB")}[real]
        e = np.asarray(r["residual"]) * k
        figs.cloud(m, "error phase plane", a, x, e, "error against value")
        figs.printed(m, "error phase plane", a, "RMS", np.std(e), u)
        figs.printed(m, "error phase plane", a, "Peak", np.abs(e).max(), u)
        if r["hysteresis_gap"] > 0:
            figs.printed(m, "error phase plane", a, "Hyst(?:eresis)?", r["hysteresis_gap"] * k, u)
        xs = np.sort(x)
        L = [(q, y) for q, y in figs.lines(a) if q.size == N]
        m.check("error phase plane", len(L) == (2 if r["hysteresis_gap"] > 0 else 1), "%d trend curves" % len(L))
        if len(L) == 1:
            m.check("error phase plane", figs.near(L[0][0], xs) and figs.near(L[0][1], np.polyval(r["trend_coeffs"], xs) * k, scale=np.abs(e).max()), "trend curve is not the returned polynomial")
        elif len(L) == 2:
            m.close("error phase plane", np.mean(np.abs(L[0][1] - L[1][1])), r["hysteresis_gap"] * k, rtol=1e-6, what="distance of the two trend curves")
        m.check("error phase plane", re.search(u, a[0].get_ylabel()) is not None, "vertical axis unit %r" % a[0].get_ylabel())
    if title and kind not in ("dpolar",):
        m.check("title", any(title in t for t in figs.texts(own(fig))), "given title is not shown")
    m.nontrivial(True)


def run_bits(c, m, rng):
    B = gen.ri(rng, 5, 13)
    w = gen.pick(rng, [2.0 ** np.arange(B - 1, -1, -1), 1.85 ** np.arange(B - 1, -1, -1)])
    if rng.random() < 0.3:
        w = w * np.where(rng.random(B) < 0.3, -1, 1)
    if rng.random() < 0.3:  # not sorted, or with a tail of stray bits
        w = w[rng.permutation(B)] if rng.random() < 0.5 else np.where(np.arange(B) >= B - 2, w / 7.0, w)
    N = 1024
    p = rng.uniform(0.05, 0.95, B)
    bits = (rng.random((N, B)) < p).astype(int)
    fig, ax = stage(rng)
    r = m.call(dout.analyze_bit_activity, bits, ax=ax)
    a = own(fig)[0]
    figs.bars(m, "bit activity", a, np.arange(1, B + 1), r, "activity per bit")
    i = int(np.argmax(np.abs(r - 50)))
    g = [(t.get_position()[0], t.get_text()) for t in a.texts]
    m.check("bit activity", len(g) == 1 and abs(g[0][0] - (i + 1)) < 1e-9 and figs.agrees(g[0][1].strip("%"), r[i] - 50), "worst bit %d deviates by %g, shown %s" % (i + 1, r[i] - 50, g))
    fig, ax = stage(rng)
    ofb = gen.pick(rng, [None, None, 1, 2, B, gen.ri(rng, 1, B + 1)])
    lo, hi, z, o = m.call(dout.analyze_overflow, bits, np.abs(w), ofb=ofb, ax=ax)
    a = own(fig)[0]
    # points coloured by whether the segment from the chosen bit (1 = LSB, default MSB) is empty, full or neither
    W = np.abs(w)
    D = np.stack([bits[:, k:] @ W[k:] / W[k:].sum() for k in range(B)], axis=1)
    k = B - (ofb or B)
    grp = np.where(bits[:, k:].sum(axis=1) == 0, 0, np.where(bits[:, k:].all(axis=1), 2, 1))
    want = sorted((int((grp == q).sum()), round(float(D[grp == q].sum()), 6)) for q in range(3) if (grp == q).any())
    col = {}
    for q in a.collections:
        if type(q).__name__ == "PathCollection":
            key = tuple(np.round(q.get_facecolor()[0][:3], 3))
            n_, s_ = col.get(key, (0, 0.0))
            col[key] = (n_ + len(q.get_offsets()), s_ + float(np.asarray(q.get_offsets())[:, 1].sum()))
    got = sorted((v[0] // B, round(v[1], 6)) for v in col.values())
    m.check("overflow groups", len(got) == len(want) and all(u[0] == v[0] and abs(u[1] - v[1]) < 1e-4 for u, v in zip(got, want)), "points per colour (count, sum) %s, expected %s for bit %s" % (got, want, ofb))
    figs.curve(m, "overflow", a, np.arange(1, B + 1), lo, "lowest residue")
    figs.curve(m, "overflow", a, np.arange(1, B + 1), hi, "highest residue")
    t = [(q.get_position(), q.get_text()) for q in a.texts]
    for k in range(B):
        low = [s for (px, py), s in t if abs(px - k - 1) < 0.3 and py < 0.5]
        top = [s for (px, py), s in t if abs(px - k - 1) < 0.3 and py > 0.5]
        m.check("overflow", len(low) == 1 and len(top) == 1 and figs.agrees(low[0].strip("%"), z[k]) and figs.agrees(top[0].strip("%"), o[k]), "segment %d shares shown %s/%s, computed %g/%g" % (k + 1, low, top, z[k], o[k]))
    labs = [q.get_text() for q in a.get_xticklabels()]
    m.check("overflow", labs == [str(B - k) for k in range(B)], "bit numbers on the axis %s" % labs)
    fig, ax = stage(rng)
    r = m.call(dout.analyze_weight_radix, w, ax=ax)
    a = own(fig)[0]
    figs.curve(m, "radix", a, np.arange(1, B + 1), np.abs(w), "weights")
    figs.printed(m, "radix", a, r"Eff\.? ?Res\.?", r["effres"], "bits")
    order = np.argsort(-np.abs(w), kind="stable")
    ratio = np.abs(w[order])[:-1] / np.abs(w[order])[1:]
    last = int(np.argmax(ratio >= 3.0)) if np.any(ratio >= 3.0) else B - 1
    for name, i in (("MSB", order[0]), ("LSB", order[last])):
        g = [q.get_position() for q in a.texts if q.get_text().strip() == name]
        if name == "MSB" or last > 0:
            m.check("radix", len(g) == 1 and abs(g[0][0] - i - 1) < 1e-9, "%s is bit %d, labelled at %s" % (name, i + 1, g))
    for k in range(1, B):
        g = [q.get_text() for q in a.texts if abs(q.get_position()[0] - k - 1) < 1e-9 and q.get_text().startswith("/")]
        m.check("radix", len(g) == 1 and figs.agrees(g[0][1:], r["radix"][k]), "ratio at bit %d shown %s, computed %g" % (k + 1, g, r["radix"][k]))
    for sign, name in ((w >= 0, "Positive"), (w < 0, "Negative")):
        if np.any(w < 0) and np.any(sign):
            ln = [q for q in a.lines if q.get_label() == name]
            m.check("radix", len(ln) == 1 and figs.near(ln[0].get_xdata(), np.where(sign)[0] + 1.0), "%s weights marked wrongly" % name.lower())
    # resolution sweep and residual scatter on a converted sine
    f = gen.coprime_bin(rng, N, 30, N // 2 - 30)
    v = 0.5 + 0.45 * np.sin(2 * np.pi * f * np.arange(N) / N + rng.uniform(0, 6)) + 1e-3 * rng.standard_normal(N)
    ww = 2.0 ** np.arange(B - 1, -1, -1)
    cb = sarsim.to_bits(v, B) if hasattr(sarsim, "to_bits") else ((np.clip((v * 2 ** B).astype(int), 0, 2 ** B - 1)[:, None] >> np.arange(B - 1, -1, -1)) & 1)
    fig, ax = stage(rng)
    with quiet():
        en, nv = m.call(dout.analyze_enob_sweep, cb, freq=f / N, ax=ax, verbose=False)
    a = own(fig)[0]
    figs.curve(m, "resolution sweep", a, nv, en, "ENOB per number of bits")
    m.check("resolution sweep", len(a.lines) == 1 and len(plt.get_fignums()) <= 4, "%d curves in the panel" % len(a.lines))
    dl = np.concatenate([[en[0]], np.diff(en)])
    for k in range(B):
        if np.isfinite(en[k]) and np.isfinite(dl[k]):
            g = [q.get_text() for q in a.texts if abs(q.get_position()[0] - nv[k]) < 1e-9]
            m.check("resolution sweep", len(g) == 1 and figs.agrees(g[0], dl[k]), "gain of bit %d shown %s, computed %g" % (k + 1, g, dl[k]))
    plt.close("all")
    pairs = gen.pick(rng, [None, [(0, B), (1, 3)], [(0, 1), (2, B), (1, 2), (0, 0), (3, 4)]])
    sig = cb @ ww
    r = m.call(dout.plot_residual_scatter, sig, cb, ww, pairs=pairs)
    vis = [q for q in plt.gcf().axes if q.get_visible()]
    if m.check("residual scatter", len(vis) == len(r["pairs"]), "%d panels for %d pairs" % (len(vis), len(r["pairs"]))):
        for q, u, v, (i, j) in zip(vis, r["residuals_x"], r["residuals_y"], r["pairs"]):
            figs.cloud(m, "residual scatter", q, u, v, "residuals")
            for lab, k in ((q.get_xlabel(), i), (q.get_ylabel(), j)):
                m.check("residual scatter", re.findall(r"\d+", lab) == ([str(k)] if k else []), "axis labelled %r for residual %d" % (lab, k))
    m.nontrivial(True)


def run_sweep(c, m, rng):
    x, b, _ = record(rng)
    if rng.random() < 0.25:  # fourth harmonic falls onto DC
        x = np.sin(np.pi / 2 * np.arange(512) + rng.uniform(0, 6)) + (1e-3 * rng.standard_normal(512) if rng.random() < 0.5 else 0)
    log = bool(rng.random() < 0.5)
    osr = gen.pick(rng, [None, np.array([1.0, 2, 4, 8, 16, 32]), np.geomspace(1, 50, 23)])
    split = rng.random() < 0.5
    fig, ax = (plt.figure(), None) if split else stage(rng)
    H = gen.pick(rng, [5, 3, 8])
    smooth = gen.pick(rng, [None, 1, 2, 50])
    r = m.call(spectrum.sweep_performance_vs_osr, x, osr=osr, ax=ax, logscale=log, harmonic=H, smooth=smooth)
    plain = m.call(spectrum.sweep_performance_vs_osr, x, osr=osr, create_plot=False)
    for k in ("osr", "sndr", "sfdr", "enob"):
        m.close("oversampling sweep", r[k], plain[k], rtol=1e-12, what="%s with and without plot" % k)
    A = [q for q in plt.gcf().axes if q.get_title() != "bystander"] if ax is None else own(fig)
    figs.curve(m, "oversampling sweep", A, r["osr"], r["sndr"], "SNDR")
    figs.curve(m, "oversampling sweep", A, r["osr"], r["sfdr"], "SFDR")
    main = [q for q in A if any(figs.near(v, r["sndr"]) for u, v in figs.lines(q) if v.size == len(r["sndr"]))]
    right = [q for q in A if "ENOB" in q.get_ylabel()]
    if len(main) >= 1 and m.check("oversampling sweep", len(right) == 1, "no ENOB scale"):
        m.close("oversampling sweep", right[0].get_ylim(), (np.array(main[0].get_ylim()) - 1.76) / 6.02, atol=1e-9, what="ENOB scale against the dB scale")
        m.check("oversampling sweep", (main[0].get_xscale() == "log") == log, "horizontal scale is %s" % main[0].get_xscale())
        figs.inview(m, "in view", main[0], np.concatenate([r["sndr"], r["sfdr"]]), "SNDR and SFDR over the ratio")
        # tone and harmonics stand where the band edge passes them
        f1 = m.call(fit_sine_4param, x)["frequency"]
        want = {}
        for k in range(1, H + 1):
            fk = abs((f1 * k + 0.5) % 1.0 - 0.5)
            if fk > 1e-9:
                want["Fund" if k == 1 else "HD%d" % k] = 1 / (2 * fk)
        got = {t.get_text(): t.get_position()[0] for t in main[0].texts}
        bars_ = [u[0] for u, v in figs.lines(main[0]) if u.size == 2 and u[0] == u[1]]
        lo, hi = np.min(r["osr"]), np.max(r["osr"])
        for name, at in want.items():
            if abs(at / lo - 1) > 1e-6 and abs(at / hi - 1) > 1e-6:
                inside = lo < at < hi
                m.check("sweep markers", (name in got) == inside, "%s passes the band edge at ratio %.6g (swept %.4g to %.4g) but is%s labelled" % (name, at, lo, hi, "" if name in got else " not"))
                if inside and name in got:
                    m.check("sweep markers", abs(got[name] / at - 1) < 1e-6 and any(abs(q / at - 1) < 1e-6 for q in bars_), "%s belongs at ratio %.6g, labelled at %.6g" % (name, at, got[name]))
        m.check("sweep markers", not set(got) - set(want) - {"HD%d" % k for k in range(2, H + 1)}, "labels %s" % sorted(got))
    slope = [q for q in A if "lope" in q.get_ylabel()]
    if ax is None and len(r["osr"]) >= 3:
        if m.check("slope", len(slope) == 1, "no slope panel"):
            n = len(r["osr"])
            k = min(max(5, int(round(n / 10))) if smooth is None else smooth, (n - 1) // 2)
            i = np.arange(n)
            lo, hi = np.maximum(0, i - k), np.minimum(n - 1, i + k)
            y = (r["sndr"][hi] - r["sndr"][lo]) / (np.log10(r["osr"])[hi] - np.log10(r["osr"])[lo])
            L = [v for u, v in figs.lines(slope) if u.size == n and n > 2]
            m.check("slope", len(L) == 1 and figs.near(L[0], y, scale=10 * np.abs(y).max()), "drawn slope is not the SNDR change per decade over the smoothing width")
            figs.inview(m, "in view", slope[0], y, "slope")
    m.nontrivial(True)


def run_espec(c, m, rng):
    x, b, _ = record(rng)
    fs = gen.logu(rng, 1, 1e9)
    fig, ax = stage(rng)
    with quiet():
        r = m.call(aout.analyze_error_spectrum, x, fs=fs, ax=ax)
        p = m.call(compute_spectrum, r["error_signal"], fs=fs)["plot_data"]
    figs.curve(m, "error spectrum", own(fig), p["freq"], p["power_spectrum_db_plot"], "spectrum of the error")
    fig, ax = stage(rng)
    with quiet():
        r = m.call(aout.analyze_error_envelope_spectrum, x, fs=fs, ax=ax)
        p = m.call(compute_spectrum, r["envelope"], fs=fs)["plot_data"]
    figs.curve(m, "error spectrum", own(fig), p["freq"], p["power_spectrum_db_plot"], "spectrum of the envelope")
    m.nontrivial(True)


def run_ntf(c, m, rng):
    n = gen.ri(rng, 1, 4)
    num = np.poly(np.ones(n))
    den = np.poly(rng.uniform(0, 0.6, n))
    lo, hi = gen.pick(rng, [(0.0, 0.05), (0.01, 0.1), (0.0, 0.25)])
    fig = plt.figure()
    v = m.call(oversampling.ntf_analyzer, (num, den), lo, hi, is_plot=1)
    m.close("noise transfer", v, m.call(oversampling.ntf_analyzer, (num, den), lo, hi), rtol=1e-12, what="suppression with and without plot")
    L = [(u, w) for u, w in figs.lines(fig.axes) if u.size > 100]
    if m.check("noise transfer", len(L) == 1, "%d response curves" % len(L)):
        z = np.exp(2j * np.pi * L[0][0])
        k = L[0][0] > 1e-3
        m.close("noise transfer", L[0][1][k], 20 * np.log10(np.abs(np.polyval(num, z[k]) / np.polyval(den, z[k]))), atol=1e-6, what="drawn response")
    edge = sorted(u[0] for u, w in figs.lines(fig.axes) if u.size == 2)
    m.check("noise transfer", figs.near(edge, [q for q in (lo, hi) if q > 0]), "band edges drawn at %s" % edge)
    m.nontrivial(True)


def run_noplot(c, m, rng):
    """Without a plot nothing is drawn anywhere: no figure is opened and an open one stays as it is."""
    x, b, _ = record(rng)
    N = len(x)
    B = 8
    v = 0.5 + 0.45 * np.sin(2 * np.pi * b * np.arange(N) / N + rng.uniform(0, 6)) + 1e-3 * rng.standard_normal(N)
    codes = np.clip((v * 2 ** B).astype(int), 0, 2 ** B - 1)
    bits = (codes[:, None] >> np.arange(B - 1, -1, -1)) & 1
    w = 2.0 ** np.arange(B - 1, -1, -1)
    todo = [(spectrum.analyze_spectrum, (x,)), (spectrum.analyze_spectrum_virtuoso, (x,)), (spectrum.analyze_spectrum_polar, (x,)), (spectrum.sweep_performance_vs_osr, (x,)),
            (aout.analyze_error_by_value, (x,)), (aout.analyze_error_by_phase, (x,)), (aout.analyze_decomposition_time, (x,)), (aout.analyze_decomposition_polar, (x,)), (aout.analyze_error_pdf, (x,)),
            (aout.analyze_error_autocorr, (x,)), (aout.analyze_error_spectrum, (x,)), (aout.analyze_error_envelope_spectrum, (x,)), (aout.analyze_inl_from_sine, (codes,)), (aout.analyze_inl_from_ramp, (np.sort(codes), B)),
            (dout.analyze_bit_activity, (bits,)), (dout.analyze_overflow, (bits, w)), (dout.analyze_enob_sweep, (bits, b / N)), (dout.analyze_weight_radix, (w,)), (dout.plot_residual_scatter, (codes, bits, w)),
            (dout.check_bit_activity, (bits,)), (dout.check_overflow, (bits, w)), (dout.plot_weight_radix, (w,))]
    mine = None
    if rng.random() < 0.5:
        mine = plt.figure()
        mine.add_subplot(111).plot([1, 2], [3, 4])
    for f, args in todo:
        kw = {"create_plot": False}
        if f is dout.check_overflow and rng.random() < 0.5:
            kw = {"disp": gen.pick(rng, [False, 0])}
        with quiet():
            m.call(f, *args, **kw)
        m.equal("nothing drawn", len(plt.get_fignums()), 0 if mine is None else 1, "figures open after %s without a plot" % f.__name__)
        if mine is not None:
            m.check("nothing drawn", len(mine.axes) == 1 and len(mine.axes[0].lines) == 1 and not mine.axes[0].collections and not mine.axes[0].patches and not mine.axes[0].texts, "%s without a plot drew on the open figure" % f.__name__)
    plt.close("all")
    with quiet():
        m.call(dout.check_overflow, bits, w, disp=gen.pick(rng, [True, 1]))
    m.equal("nothing drawn", len(plt.get_fignums()), 1, "figures open after asking for the overflow plot")
    m.nontrivial(True)


def run_dash(c, m, rng, kind):
    box = tempfile.mkdtemp(prefix="c35-")
    try:
        keep = plt.figure(num="users")
        keep.add_subplot(111).plot([1, 2], [3, 4])
        before = set(plt.get_fignums())
        path = os.path.join(box, "new", "dir", "d.png") if rng.random() < 0.7 else None
        if path and rng.random() < 0.5:  # saved again over an earlier one
            os.makedirs(os.path.dirname(path))
            with open(path, "w") as fh:
                fh.write("old")
        with open(os.path.join(box, "d.txt"), "w") as fh:
            fh.write("mine")
        cwd = os.getcwd()
        os.chdir(box)
        try:
            with quiet():
                if kind == "dashd":
                    B, N = 8, 1024
                    f = gen.coprime_bin(rng, N, 30, 200)
                    v = 0.5 + 0.48 * np.sin(2 * np.pi * f * np.arange(N) / N + rng.uniform(0, 6)) + 2e-3 * rng.standard_normal(N)
                    bits = (np.clip((v * 2 ** B).astype(int), 0, 2 ** B - 1)[:, None] >> np.arange(B - 1, -1, -1)) & 1
                    nominal = gen.pick(rng, [None, 1.9 ** np.arange(B - 1, -1, -1)])
                    fig, axes = m.call(toolset.generate_dout_dashboard, bits, freq=f / N, weights=nominal, output_path=path)
                else:
                    x, b, _ = record(rng, N=1024)
                    N = len(x)
                    fs = gen.logu(rng, 1, 1e9)
                    fn = toolset.generate_aout_dashboard if kind == "dash8" else three.generate_aout_dashboard
                    fin = gen.pick(rng, [None, b / N * fs])
                    res = gen.pick(rng, [10, 12])
                    fig, axes = m.call(fn, x, fs=fs, freq=fin, output_path=path, resolution=res)
        finally:
            os.chdir(cwd)
        m.nontrivial(True)
        found = sorted(os.path.relpath(os.path.join(d, q), box) for d, _, fsn in os.walk(box) for q in fsn)
        m.equal("dashboard file", found, sorted(["d.txt"] + (["new/dir/d.png"] if path else [])), "files after drawing")
        if path and os.path.exists(path):
            with open(path, "rb") as fh:
                m.equal("dashboard file", fh.read(8), b"\x89PNG\r\n\x1a\n", "start of the saved image")
            img = plt.imread(path)
            m.check("dashboard file", min(img.shape[:2]) > 300 and np.std(img) > 0.01, "saved image is empty or tiny")
        with open(os.path.join(box, "d.txt")) as fh:
            m.equal("dashboard file", fh.read(), "mine", "the user's own file")
        after = set(plt.get_fignums())
        m.check("dashboard figures", before <= after, "the user's own figure was closed")
        m.check("dashboard figures", keep.axes and len(keep.axes) == 1 and len(keep.axes[0].lines) == 1, "the user's own figure was drawn on")
        m.check("dashboard figures", len(after - before) <= (0 if path else 1), "%d figures left open" % len(after - before))
        A = fig.axes
        O = "dashboard panels"
        with quiet():
            if kind == "dashd":
                m.check(O, len(np.ravel(axes)) == 6, "%d panels" % len(np.ravel(axes)))
                from adctoolbox.calibration import calibrate_weight_sine
                cal = m.call(calibrate_weight_sine, bits, freq=f / N)
                p = m.call(compute_spectrum, bits @ (2.0 ** np.arange(B - 1, -1, -1) if nominal is None else nominal))["plot_data"]
                figs.curve(m, O, axes[0], p["freq"], p["power_spectrum_db_plot"], "spectrum with nominal weights")
                p = m.call(compute_spectrum, cal["calibrated_signal"])["plot_data"]
                figs.curve(m, O, axes[1], p["freq"], p["power_spectrum_db_plot"], "spectrum with calibrated weights")
                figs.bars(m, O, axes[2], np.arange(1, B + 1), bits.mean(axis=0) * 100, "bit activity")
                lo, hi, _, _ = m.call(dout.analyze_overflow, bits, cal["weight"], create_plot=False)
                figs.curve(m, O, axes[3], np.arange(1, B + 1), hi, "highest residue")
                en, nv = m.call(dout.analyze_enob_sweep, bits, freq=cal["refined_frequency"], create_plot=False, verbose=False)
                figs.curve(m, O, axes[4], nv, en, "ENOB sweep")
                figs.curve(m, O, axes[5], np.arange(1, B + 1), np.abs(cal["weight"]), "weights")
                return
            n = 8 if kind == "dash8" else 12
            m.check(O, len(np.ravel(axes)) == n, "%d panels" % len(np.ravel(axes)))
            # every analysis must be there; each is looked for anywhere in the figure
            full = m.call(compute_spectrum, x, fs=fs)
            figs.curve(m, O, A, full["plot_data"]["freq"], full["plot_data"]["power_spectrum_db_plot"], "spectrum")
            figs.printed(m, O, axes[0], "SNDR", full["metrics"]["sndr_dbc"], "dB")
            hz(m, axes[0], b / N * fs, fs)
            r = m.call(aout.analyze_error_by_value, x, create_plot=False)
            figs.curve(m, O, A, r.get("value_bin_centers", r["bin_centers"]), r["error_mean"], "mean error per value")
            r = m.call(aout.analyze_error_by_phase, x, create_plot=False)
            figs.curve(m, O, A, np.degrees(r["phase_bin_centers_rad"]), r["bin_error_mean_v"], "mean error per phase")
            r = m.call(aout.analyze_decomposition_polar, x, create_plot=False)
            figs.printed(m, O, axes[5], r"(?:Residue Errors|Residual)", r["noise_db"], "dB")
            r = m.call(aout.analyze_decomposition_time, x, create_plot=False)
            H = np.asarray(r["harmonic_signal"])
            m.check(O, any(u[0] >= 1 and figs.near(v, H[int(u[0]) - 1:int(u[-1])]) for u, v in figs.lines(A) if u.size > 2), "harmonics over time are not drawn")
            r = m.call(aout.analyze_error_pdf, x, resolution=res, create_plot=False)
            figs.curve(m, O, A, r["x"], r["pdf"], "error density for the given resolution")
            r = m.call(aout.analyze_error_autocorr, x, frequency=None if fin is None else fin / fs, create_plot=False)
            figs.curve(m, O, A, r["lags"], r["acf"], "error autocorrelation")
            if n == 12:
                for g, key in ((aout.analyze_error_spectrum, "error_signal"), (aout.analyze_error_envelope_spectrum, "envelope")):
                    r = m.call(g, x, fs=fs, create_plot=False)
                    p = m.call(compute_spectrum, r[key], fs=fs)["plot_data"]
                    figs.curve(m, O, A, p["freq"], p["power_spectrum_db_plot"], "spectrum of the %s" % key)
                k = m.call(aout.analyze_phase_plane, x, create_plot=False)["lag"]
                figs.cloud(m, O, axes[10], x[:-k], x[k:], "phase plane")
                r = m.call(aout.analyze_error_phase_plane, x, create_plot=False)
                figs.cloud(m, O, axes[11], x, r["residual"] * (1e6 if np.abs(x).max() < 50 else 1.0), "error phase plane")
        tits = [q.get_title() for q in A]
        for i in range(1, n + 1):
            m.check(O, sum(t.startswith("(%d)" % i) for t in tits) == 1, "panel %d is not titled once (%s)" % (i, tits))
    finally:
        shutil.rmtree(box, ignore_errors=True)


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    plt.close("all")
    try:
        if kind in ("spectrum", "virtuoso"):
            run_spectrum(c, m, rng, kind)
        elif kind == "polar":
            run_polar(c, m, rng)
        elif kind == "inl":
            run_inl(c, m, rng)
        elif kind == "bits":
            run_bits(c, m, rng)
        elif kind == "sweep":
            run_sweep(c, m, rng)
        elif kind == "espec":
            run_espec(c, m, rng)
        elif kind == "ntf":
            run_ntf(c, m, rng)
        elif kind == "noplot":
            run_noplot(c, m, rng)
        elif kind.startswith("dash"):
            run_dash(c, m, rng, kind)
        else:
            run_error(c, m, rng, kind)
    finally:
        plt.close("all")


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
