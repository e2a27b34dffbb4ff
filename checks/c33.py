"""C33 storage type and layout of the same samples do not change any result."""
import sys
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
import api
import sarsim
from adctoolbox import aout, dout, fundamentals as fu, calibration as ca, models, spectrum, timeinterleave as ti

PROPERTY = "C33"
RULE = "integer-valued records and bit matrices handed over in every storage type and memory layout that can hold them, full-range values of narrow types included; non-trivial = result has numbers and the form differs from contiguous float64"
REQUIRED_ORACLES = ["narrow integers", "wide integers", "unsigned", "single precision", "layout", "byte order", "boolean bits", "bit storage", "weights storage", "list"]
MIN_NONTRIVIAL = {"quick": 80, "thorough": 600}
NOT = ("validate_aout_data",)
RECS = [n for n in sorted(api.REC) if n not in NOT]
# entry points documented for array_like or that convert their input
BITS = ["calibrate_weight_sine", "calibrate_weight_sine_lite", "analyze_bit_activity", "analyze_overflow", "analyze_enob_sweep", "plot_residual_scatter", "validate_dout_data", "sar_reconstruct"]
CODES = ["compute_inl_from_sine", "analyze_inl_from_sine", "compute_inl_from_ramp", "analyze_inl_from_ramp"]


def cases(rng, tier):
    for i in range(6 if tier == "quick" else 24):
        for n in RECS:
            yield {"seed": gen.seed_of(rng), "kind": "record", "name": n}
        for n in BITS:
            yield {"seed": gen.seed_of(rng), "kind": "bits", "name": n}
        for n in CODES:
            yield {"seed": gen.seed_of(rng), "kind": "codes", "name": n}
        yield {"seed": gen.seed_of(rng), "kind": "runs", "name": "compute_spectrum"}


def flat(v, path=""):
    if isinstance(v, dict):
        for k in v:
            yield from flat(v[k], path + "/" + str(k))
    elif isinstance(v, (list, tuple)) and not (v and all(isinstance(q, (int, float, np.number)) for q in v)):
        for i, q in enumerate(v):
            yield from flat(q, path + "/%d" % i)
    elif isinstance(v, (bool, int, float, complex, np.number, np.ndarray, list, tuple)):
        a = np.asarray(v)
        if a.dtype.kind in "biufc":
            yield path, a.astype(complex if a.dtype.kind == "c" else float)


def same(m, oracle, got, want, what, rtol=1e-6, loose=False):
    g, w = dict(flat(got)), dict(flat(want))
    if list(g) != list(w):
        m.fail(oracle, "%s: different parts in the results" % what)
        return
    for p in w:
        u, v = g[p], w[p]
        ok = np.isfinite(v)
        top = np.abs(v[ok]).max() if np.any(ok) else 0.0
        m.close(oracle, u, v, rtol=rtol, atol=1e-7 * top + 1e-9, what="%s%s" % (what, p))


def forms(x, rng, lo=None, hi=None):
    """(oracle, label, array) for each way to store the integer-valued record x."""
    lo, hi = x.min(), x.max()
    for dt, orc in (("int8", "narrow integers"), ("uint8", "unsigned"), ("int16", "narrow integers"), ("uint16", "unsigned"), ("int32", "wide integers"), ("int64", "wide integers"), ("uint32", "unsigned")):
        i = np.iinfo(dt)
        if lo >= i.min and hi <= i.max:
            yield orc, dt, x.astype(dt)
    for dt in (">i2", ">f8", "<i2"):
        if dt[1] == "f" or (lo >= -32768 and hi <= 32767):
            yield "byte order", dt, x.astype(dt)
    big = np.zeros((len(x), 3))
    big[:, 1] = x
    yield "layout", "column of a table", big[:, 1]
    yield "layout", "reversed view", x[::-1].copy()[::-1]
    yield "layout", "every third", np.repeat(x, 3)[::3]


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    name, kind = c["name"], c["kind"]
    if kind == "record":
        fn, opt = api.REC[name]
        kw = opt(rng)
        N = 1024
        b = gen.coprime_bin(rng, N, 12, 110 if name == "calibrate_foreground" else 460)
        full = gen.pick(rng, ["int8", "uint8", "int16", "uint16", "uint8"])
        i = np.iinfo(full)
        A = (float(i.max) - i.min) / 2 * rng.uniform(0.9, 0.999)
        mid = (float(i.max) + i.min) / 2
        x = np.round(mid + A * (np.cos(2 * np.pi * b * np.arange(N) / N + 0.3) * 0.98 + 0.01 * rng.standard_normal(N)))
        x = np.clip(x, i.min, i.max)
        x[gen.ri(rng, 0, N)] = i.max
        x[gen.ri(rng, 0, N)] = i.min
        want = m.call(fn, x.copy(), **kw)
        for orc, label, y in forms(x, rng):
            same(m, orc, m.call(fn, y, **kw), want, "%s given %s" % (name, label))
        if name != "analyze_phase_plane":
            g32 = dict(flat(m.call(fn, x.astype(np.float32), **kw)))
            w = dict(flat(want))
            for p in w:
                u, v = g32.get(p), w[p]
                if u is None or u.shape != v.shape:
                    m.fail("single precision", "%s given float32: %s missing or of different size" % (name, p))
                elif v.size == 1 and np.isfinite(v).all() and ("dbc" in p or "enob" in p or "sndr" in p or "frequency" in p or "amplitude" in p):
                    m.close("single precision", u, v, rtol=2e-3, atol=0.02, what="%s given float32 %s" % (name, p))
        m.check("single precision", True)
        try:
            y = fn(list(map(float, x)), **kw)
        except (AttributeError, TypeError, ValueError, IndexError):
            m.skip("%s does not take plain lists" % name)
        else:
            same(m, "list", y, want, "%s given a list" % name)
    elif kind == "runs":
        x = np.round(100 * np.cos(2 * np.pi * 101 * np.arange(1024) / 1024)[None, :] + 3 * rng.standard_normal((3, 1024)))
        want = m.call(spectrum.compute_spectrum, x.copy())
        for label, y in (("int8", x.astype("int8")), ("fortran order", np.asfortranarray(x)), ("runs in columns", np.ascontiguousarray(x.T)), ("transposed view", x.copy().T)):
            same(m, "layout", m.call(spectrum.compute_spectrum, y), want, "compute_spectrum given %s" % label)
    elif kind == "bits":
        B, w, f = api.bits(rng)
        fn, args, kw = {"calibrate_weight_sine": (ca.calibrate_weight_sine, (), {}), "calibrate_weight_sine_lite": (ca.calibrate_weight_sine_lite, (f,), {}),
                        "analyze_bit_activity": (dout.analyze_bit_activity, (), dict(create_plot=False)),
                        "analyze_overflow": (dout.analyze_overflow, (w,), dict(create_plot=False)), "analyze_enob_sweep": (dout.analyze_enob_sweep, (), dict(freq=f, create_plot=False)),
                        "plot_residual_scatter": (lambda b: dout.plot_residual_scatter(B @ w, b, weights=w, create_plot=False), (), {}), "validate_dout_data": (fu.validate_dout_data, (), {}),
                        "sar_reconstruct": (models.sar_reconstruct, (w / w.sum(),), {})}[name]
        want = m.call(fn, B.astype(float), *args, **kw)
        for dt in ("int8", "uint8", "int32", "int64", "uint64", "float32"):
            same(m, "bit storage", m.call(fn, B.astype(dt), *args, **kw), want, "%s given %s bits" % (name, dt), rtol=1e-4 if dt == "float32" else 1e-6)
        if name != "validate_dout_data":
            same(m, "boolean bits", m.call(fn, B.astype(bool), *args, **kw), want, "%s given boolean bits" % name)
        same(m, "layout", m.call(fn, np.asfortranarray(B), *args, **kw), want, "%s given column-major bits" % name)
        same(m, "layout", m.call(fn, np.repeat(B, 2, axis=0)[::2], *args, **kw), want, "%s given strided bits" % name)
        wi = np.round(w * 8)
        if np.all(wi > 0):
            for dt in ("int16", "int64", "uint16", "float32"):
                fl = B.astype(float)
                same(m, "weights storage", m.call(dout.analyze_overflow, fl, wi.astype(dt), create_plot=False), m.call(dout.analyze_overflow, fl, wi, create_plot=False), "overflow with %s weights" % dt, rtol=1e-5)
                same(m, "weights storage", m.call(dout.analyze_weight_radix, wi.astype(dt), create_plot=False), m.call(dout.analyze_weight_radix, wi, create_plot=False), "radix with %s weights" % dt, rtol=1e-5)
                # narrow bits together with integer weights: the weighted sum leaves the range of either type
                bt = gen.pick(rng, ["int8", "uint8", "bool", "int16"])
                tag = "%s bits and %s weights" % (bt, dt)
                same(m, "weights storage", m.call(dout.analyze_overflow, B.astype(bt), wi.astype(dt), create_plot=False), m.call(dout.analyze_overflow, fl, wi, create_plot=False), "overflow with " + tag, rtol=1e-5)
                same(m, "weights storage", m.call(models.sar_reconstruct, B.astype(bt), wi.astype(dt)), m.call(models.sar_reconstruct, fl, wi), "reconstruction with " + tag, rtol=1e-5)
                y = fl @ wi
                same(m, "weights storage", m.call(dout.plot_residual_scatter, y, B.astype(bt), weights=wi.astype(dt), create_plot=False), m.call(dout.plot_residual_scatter, y, fl, weights=wi, create_plot=False), "residuals with " + tag, rtol=1e-5)
    else:
        nb = gen.pick(rng, [6, 8])
        K = 2 ** nb
        codes = np.clip(np.floor(K / 2 + (K / 2 + 0.5) * np.cos(2 * np.pi * 1201 * np.arange(8192) / 8192 + rng.uniform(0, 6))), 0, K - 1)
        if "ramp" in name:
            codes = rng.permutation(np.clip(np.floor(np.linspace(0, K, 6000)), 0, K - 1) + 0.0)
        fn = getattr(aout, name)
        kw = dict(num_bits=nb)
        if name.startswith("analyze"):
            kw["create_plot"] = False
        want = m.call(fn, codes.astype(np.int64), **kw)
        for orc, label, y in forms(codes, rng):
            if y.dtype.kind == "f":
                continue
            same(m, orc, m.call(fn, y, **kw), want, "%s given %s codes" % (name, label))
        ic = codes.astype(np.int64)
        big = np.zeros((len(ic), 2), np.int16)
        big[:, 0] = ic
        same(m, "layout", m.call(fn, big[:, 0], **kw), want, "%s given a table column" % name)
        same(m, "list", m.call(fn, ic.reshape(-1, 1), **kw), want, "%s given a column of codes" % name)
    m.nontrivial()
    m.sample(kind=kind, name=name)


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
