"""Runs one bundled example in an unprivileged process with every public analysis function watched; writes what it saw as JSON.

Usage: ex_driver.py SCRATCH SCRIPT SEED REPORT PKG.  PKG holds a copy of the package, SCRIPT is a copy of the example below SCRATCH.
The process may write below SCRATCH only: an audit hook records and refuses every other file-changing call.
"""
import contextlib
import functools
import inspect
import io
import json
import os
import sys
import time
import traceback
import warnings

ROOT, SCRIPT, SEED, REPORT = os.path.realpath(sys.argv[1]), os.path.realpath(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
PKG = os.path.realpath(sys.argv[5])
sys.path[0] = PKG
import numpy as np  # noqa: E402
import matplotlib  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import runpy  # noqa: E402
import adctoolbox  # noqa: E402

assert os.path.realpath(adctoolbox.__file__).startswith(PKG + os.sep), adctoolbox.__file__
rep = {"calls": {}, "oracles": {}, "bad": [], "writes": [], "escapes": [], "figures_saved": 0, "skipped": {}}
PATHS = {"os.remove": 0, "os.rmdir": 0, "os.mkdir": 0, "os.rename": 1, "os.symlink": 1, "os.link": 1, "os.truncate": 0, "os.chmod": 0, "os.chown": 0, "shutil.rmtree": 0, "shutil.move": 1}
armed = False


def hook(event, args):
    if not armed:
        return
    where = None
    if event in PATHS:
        where = args[PATHS[event]]
    elif event == "open":
        mode, flags = args[1], args[2]
        if isinstance(args[0], int):
            return
        if (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            where = args[0]
    if where is None or isinstance(where, int):
        return
    where = os.path.realpath(os.fsdecode(where))
    if where == os.devnull:
        return
    if event == "os.mkdir" and os.path.isdir(where):
        return  # mkdir(exist_ok=True) of something already there
    rep["writes"].append(where)
    if not where.startswith(ROOT + os.sep):
        rep["escapes"].append([event, where])
        raise OSError(30, "refused %s" % event, where)


def tick(oracle, ok, text):
    rep["oracles"][oracle] = rep["oracles"].get(oracle, 0) + 1
    if not ok and len(rep["bad"]) < 20:
        rep["bad"].append([oracle, text() if callable(text) else text])


def arrays(x, path="", depth=0):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biufc":
            yield path, x
    elif isinstance(x, dict) and depth < 4:
        for k, v in x.items():
            yield from arrays(v, "%s[%r]" % (path, k), depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 4:
        if x and all(isinstance(v, (int, float)) for v in x):
            yield path, np.array(x, float)
        else:
            for i, v in enumerate(x):
                yield from arrays(v, "%s[%d]" % (path, i), depth + 1)


def numbers(x, path="", depth=0):
    """Every number inside a result, as (path, array)."""
    if isinstance(x, (bool, int, float, complex, np.number, np.bool_)):
        yield path, np.array([x])
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "biufc":
            yield path, x
    elif isinstance(x, dict) and depth < 5:
        for k, v in x.items():
            yield from numbers(v, "%s[%r]" % (path, k), depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 5:
        for i, v in enumerate(x):
            yield from numbers(v, "%s[%d]" % (path, i), depth + 1)


def same(a, b):
    """First differing place of two results, or None."""
    A, B = list(numbers(a)), list(numbers(b))
    if [p for p, _ in A] != [p for p, _ in B]:
        return "different fields: %s / %s" % ([p for p, _ in A][:20], [p for p, _ in B][:20])
    for (p, x), (_, y) in zip(A, B):
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc" and y.dtype.kind in "fc"):
            return "%s: %r / %r" % (p, np.ravel(x)[:4], np.ravel(y)[:4])
    return None


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a == b) or (np.isnan(a) and np.isnan(b))


def metric_relations(name, arg, r):
    """Relations that the documentation gives between the fields of a result."""
    if name == "analyze_spectrum" and isinstance(r, dict) and "sndr_dbc" in r:
        tick("metric relations", near(r["enob"], (r["sndr_dbc"] - 1.76) / 6.02), lambda: "ENOB %r does not follow from SNDR %r" % (r["enob"], r["sndr_dbc"]))
        tick("metric relations", near(r["noise_floor_dbfs"], r["sig_pwr_dbfs"] - r["snr_dbc"]), lambda: "noise floor %r is not signal %r minus SNR %r" % (r["noise_floor_dbfs"], r["sig_pwr_dbfs"], r["snr_dbc"]))
        nsd = r["noise_floor_dbfs"] - 10 * np.log10(arg["fs"] / 2 / arg["osr"])
        tick("metric relations", near(r["nsd_dbfs_hz"], nsd, 1e-6), lambda: "noise density %r is not the floor spread over the band %r" % (r["nsd_dbfs_hz"], nsd))
        tick("metric relations", r["sfdr_dbc"] >= r["sndr_dbc"] - 1e-6, lambda: "SFDR %r below SNDR %r" % (r["sfdr_dbc"], r["sndr_dbc"]))
        for k in ("enob", "sndr_dbc", "snr_dbc", "sfdr_dbc", "thd_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz"):
            tick("finite metrics", np.isfinite(r[k]) or (k == "sfdr_dbc" and r[k] == np.inf), lambda: "%s is %r" % (k, r[k]))
    elif name == "fit_sine_4param":
        y = np.asarray(arg["data"], float)
        if y.ndim == 1 and np.ndim(r["amplitude"]) == 0:
            n = np.arange(len(y))
            w = r["dc_offset"] + r["amplitude"] * np.cos(2 * np.pi * r["frequency"] * n + r["phase"])
            tick("metric relations", np.max(np.abs(w - r["fitted_signal"])) <= 1e-6 * max(1e-300, np.ptp(y)), lambda: "fitted curve is not the one its parameters describe (off by %g)" % np.max(np.abs(w - r["fitted_signal"])))
            tick("metric relations", near(r["rmse"], np.sqrt(np.mean((y - r["fitted_signal"]) ** 2)), 1e-6), lambda: "rmse %r is not that of the residual" % r["rmse"])
    elif name in ("snr_to_enob",):
        tick("metric relations", np.allclose(r, (np.asarray(arg["snr_db"] if "snr_db" in arg else list(arg.values())[0]) - 1.76) / 6.02), lambda: "ENOB %r" % (r,))
    elif name == "find_coherent_frequency":
        fin, b = r[0], r[1]
        tick("metric relations", near(fin, b * arg["fs"] / arg["n_fft"]) and int(b) == b and (np.gcd(int(b), int(arg["n_fft"])) == 1 or not arg.get("force_odd", True)), lambda: "frequency %r is not bin %r" % (fin, b))


QUIET = {"create_plot": False, "verbose": 0, "ax": None}


def watch(name, fn):
    sig = inspect.signature(fn)

    @functools.wraps(fn)
    def wrapped(*args, **kwargs):
        global armed
        rep["calls"][name] = rep["calls"].get(name, 0) + 1
        try:
            ba = sig.bind(*args, **kwargs)
            ba.apply_defaults()
        except TypeError:
            return fn(*args, **kwargs)  # raises as it should
        kept = [(p, x, x.copy()) for p, x in arrays(dict(ba.arguments))] if sum(x.size for _, x in arrays(dict(ba.arguments))) < 4e6 else []
        t = time.time()
        r = fn(*args, **kwargs)
        t = time.time() - t
        for p, x, old in kept:
            tick("arguments unchanged", np.array_equal(x, old, equal_nan=x.dtype.kind in "fc"), lambda: "%s changed its argument %s" % (name, p))
        metric_relations(name, ba.arguments, r)
        again = sig.bind(*args, **kwargs)
        again.apply_defaults()
        if "rng" in sig.parameters or rep["calls"][name] > 6:
            return r
        for k, v in QUIET.items():
            if k in sig.parameters:
                again.arguments[k] = v
        if "create_plot" not in sig.parameters and ("ax" in sig.parameters or name.startswith(("generate_", "plot_"))):
            return r
        state = np.random.get_state()
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = plt.get_fignums()
            q = fn(*again.args, **again.kwargs)
            after = plt.get_fignums()
        np.random.set_state(state)
        tick("same without drawing", same(r, q) is None, lambda: "%s answers differently when repeated without drawing: %s" % (name, same(r, q)))
        if "create_plot" in sig.parameters:
            tick("no figure unasked", before == after, lambda: "%s opened figures %s although no drawing was asked for" % (name, [f for f in after if f not in before]))
        return r
    return wrapped


def install():
    made = {}
    mods = [adctoolbox] + [m for k, m in sorted(sys.modules.items()) if k.startswith("adctoolbox.") and m is not None]
    for m in mods:
        if hasattr(m, "__path__"):
            for pub, fn in list(vars(m).items()):
                if inspect.isfunction(fn) and not pub.startswith("_") and fn.__module__.startswith("adctoolbox") and fn not in made:
                    made[fn] = watch(pub, fn)
    # what user code imports from the package and its subpackages (their __init__ namespaces) is watched; the modules keep their own
    for m in mods:
        if hasattr(m, "__path__"):
            for k, v in list(vars(m).items()):
                if inspect.isfunction(v) and v in made:
                    setattr(m, k, made[v])
    return len(made)


def guarded_rng(real):
    def default_rng(seed=None):
        return real(SEED if seed is None else seed)
    return default_rng


rep["watched"] = install()
np.random.seed(SEED)
np.random.default_rng = guarded_rng(np.random.default_rng)
real_save = matplotlib.figure.Figure.savefig


def savefig(self, *a, **k):
    rep["figures_saved"] += 1
    return real_save(self, *a, **k)


matplotlib.figure.Figure.savefig = savefig
sys.addaudithook(hook)
sys.path[0] = os.path.dirname(SCRIPT)
sys.path.insert(1, PKG)
sys.argv = [SCRIPT]
out = io.StringIO()
warnings.simplefilter("ignore")
armed = True
try:
    with contextlib.redirect_stdout(out):
        runpy.run_path(SCRIPT, run_name="__main__")
    rep["exit"] = 0
except SystemExit as exc:
    rep["exit"] = exc.code or 0
except BaseException as exc:
    rep["exit"] = "%s: %s" % (type(exc).__name__, str(exc)[:300])
    rep["trace"] = traceback.format_exc()[-1500:]
armed = False
rep["out"] = out.getvalue()
with open(REPORT, "w") as fh:
    json.dump(rep, fh, default=str)
