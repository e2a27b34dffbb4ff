"""C32 purity: inputs kept, no hidden state, no effect on figures, random stream or process settings."""
import copy
import os
import sys
import tempfile
import shutil
import warnings
import _boot  # noqa: F401
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import vmon
import gen
import api

PROPERTY = "C32"
RULE = "every public entry point with realistic arguments, read-only storage, repeated and interleaved with other calls on other data; non-trivial = the call returned at least one number"
REQUIRED_ORACLES = ["inputs kept", "read-only", "repeatable", "no carry-over", "results not shared", "figures", "random stream", "settings", "files", "given axes", "random seed"]
MIN_NONTRIVIAL = {"quick": 100, "thorough": 1000}
NAMES = api.names()
PLOTS = [n for n in NAMES if n in api.REC and "create_plot" in api.REC[n][1](np.random.default_rng(0))] + ["analyze_bit_activity", "analyze_overflow", "analyze_weight_radix", "analyze_enob_sweep",
                                                                                                             "analyze_inl_from_sine", "analyze_inl_from_ramp"]
PLOTS = [n for n in PLOTS if not n.startswith("plot_") and "." not in n]
POLAR = ("analyze_spectrum_polar", "analyze_decomposition_polar")


def cases(rng, tier):
    for i in range(5 if tier == "quick" else 16):
        for n in NAMES:
            yield {"seed": gen.seed_of(rng), "kind": "call", "name": n}
    for i in range(1 if tier == "quick" else 6):
        for n in PLOTS:
            yield {"seed": gen.seed_of(rng), "kind": "axes", "name": n}


def flat(v, path=""):
    """Numeric content of a result as (path, array) pairs; figures, axes and callables are not values."""
    if isinstance(v, dict):
        for k in v:
            yield from flat(v[k], path + "/" + str(k))
    elif isinstance(v, (list, tuple)) and not (v and all(isinstance(q, (int, float, np.number)) for q in v)):
        for i, q in enumerate(v):
            yield from flat(q, path + "/%d" % i)
    elif isinstance(v, str):
        yield path, v
    elif v is None or isinstance(v, (bool, int, float, complex, np.number, np.ndarray, list, tuple)):
        a = np.asarray(v if v is not None else np.nan)
        if a.dtype.kind in "biufc":
            yield path, a


def same(m, oracle, a, b, what):
    a, b = list(flat(a)), list(flat(b))
    if [p for p, _ in a] != [p for p, _ in b]:
        m.fail(oracle, "%s: different parts in the two results" % what)
        return
    for (p, u), (_, v) in zip(a, b):
        if isinstance(u, str) or isinstance(v, str):
            m.equal(oracle, u, v, "%s%s" % (what, p))
        elif u.dtype.kind in "fc" and v.size:
            ok = np.isfinite(v)
            m.close(oracle, u, v, rtol=1e-7, atol=1e-9 * (np.abs(v[ok]).max() if np.any(ok) else 0), what="%s%s" % (what, p))
        else:
            m.equal(oracle, u, v, "%s%s" % (what, p))


def lock(v):
    if isinstance(v, np.ndarray):
        v.setflags(write=False)
    elif isinstance(v, dict):
        [lock(q) for q in v.values()]
    elif isinstance(v, (list, tuple)):
        [lock(q) for q in v]


def scribble(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "iufcb" and v.size:
            v[...] = 77 if v.dtype.kind != "b" else ~v
    elif isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
            if isinstance(v[k], (int, float)):
                v[k] = -12345
    elif isinstance(v, (list, tuple)):
        [scribble(q) for q in v]
        if isinstance(v, list):
            v.append("scribble")


def state():
    return {"figures": tuple(plt.get_fignums()), "current": plt.gcf().number if plt.get_fignums() else None,
            "artists": tuple(tuple(len(ax.get_children()) for ax in plt.figure(n).axes) for n in plt.get_fignums())}


def settings():
    return {"rc": dict(matplotlib.rcParams), "err": np.geterr(), "warn": list(warnings.filters), "cwd": os.getcwd(), "env": dict(os.environ), "print": np.get_printoptions(), "backend": matplotlib.get_backend(), "path": list(sys.path)}


def rstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def run(m, name, args, kw, fn, seed=None):
    kw = {k: (v() if k == "rng" else v) for k, v in kw.items()}
    if seed is not None:
        np.random.seed(seed)
    out = m.call(fn, *args, **kw)
    return out


def run_case(c, m):
    name = c["name"]
    rng = lambda k=0: np.random.default_rng([c["seed"], k])
    fn, a1, k1 = api.make(name, rng())
    random_ = name.startswith("gen.")
    if c["kind"] == "axes":
        return axes_case(c, m, name, fn, a1, k1)
    scratch = tempfile.mkdtemp(prefix="c32-")
    old = os.getcwd()
    os.chdir(scratch)
    try:
        plt.close("all")
        fig0, ax0 = plt.subplots()
        ax0.plot([1, 2, 3])
        np.random.seed(4321)
        r0, s0, f0 = rstate(), settings(), state()
        keep = copy.deepcopy((a1, {k: v for k, v in k1.items() if k != "rng"}))
        first = run(m, name, a1, k1, fn, 4321)
        snap = copy.deepcopy(list(flat(first)))
        first_copy = copy.deepcopy(first) if not random_ or isinstance(first, np.ndarray) else first
        s1, f1, r1 = settings(), state(), rstate()
        for key in s0:
            m.check("settings", s0[key] == s1[key], lambda: "%s changed the process setting '%s'" % (name, key))
        m.check("figures", f0 == f1, lambda: "%s without a plot changed the caller's figures: %s -> %s" % (name, f0, f1))
        if not random_:
            m.check("random stream", r0 == r1, lambda: "%s drew from the caller's random stream" % name)
        m.equal("files", os.listdir(scratch), [], "files left by %s" % name)
        same(m, "inputs kept", (a1, {k: v for k, v in k1.items() if k != "rng"}), keep, "%s argument" % name)
        # again, on the same objects and on fresh equal ones that may not be written
        same(m, "repeatable", run(m, name, a1, k1, fn, 4321), first_copy, "%s repeated" % name)
        fn2, a2, k2 = api.make(name, rng())
        lock(a2)
        lock({k: v for k, v in k2.items() if k != "rng"})
        same(m, "read-only", run(m, name, a2, k2, fn2, 4321), first_copy, "%s on read-only storage" % name)
        # other data in between
        fn3, a3, k3 = api.make(name, rng(1))
        run(m, name, a3, k3, fn3, 99)
        o = gen.pick(rng(2), NAMES)
        fn4, a4, k4 = api.make(o, rng(3))
        run(m, o, a4, k4, fn4, 98)
        same(m, "no carry-over", run(m, name, a1, k1, fn, 4321), first_copy, "%s after other calls" % name)
        # writing into a result must not reach later results, nor a later call an earlier result
        m.check("results not shared", all(np.array_equal(u, v, equal_nan=True) if not isinstance(u, str) and u.dtype.kind in "fc" else np.all(u == v) for (_, u), (_, v) in zip(list(flat(first)), snap)),
                "%s: an earlier result changed during later calls" % name)
        shared = any(np.shares_memory(u, v) for _, u in flat(first) if not isinstance(u, str) for _, v in flat((a1, {k: v for k, v in k1.items() if k != "rng"})) if not isinstance(v, str))
        if not shared:
            scribble(first)
            same(m, "inputs kept", (a1, {k: v for k, v in k1.items() if k != "rng"}), keep, "%s argument after writing into the result" % name)
            same(m, "results not shared", run(m, name, a1, k1, fn, 4321), first_copy, "%s after the caller wrote into its result" % name)
        if random_ and isinstance(first_copy, np.ndarray):
            fn5, a5, k5 = api.make(name, rng())
            same(m, "random seed", run(m, name, a5, k5, fn5, 4321), first_copy, "%s with the same seed on a new generator" % name)
        else:
            m.check("random seed", True)
        m.nontrivial(len(snap) > 0)
        m.sample(name=name, parts=len(snap))
    finally:
        os.chdir(old)
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)


def axes_case(c, m, name, fn, a1, k1):
    """Drawing on given axes stays in that figure and leaves settings, input and the caller's other figure alone."""
    plt.close("all")
    fig0, ax0 = plt.subplots()
    ax0.plot([1, 2, 3])
    n0 = len(ax0.get_children())
    fig, ax = plt.subplots(subplot_kw=dict(projection="polar") if name in POLAR else {})
    plt.figure(fig0.number)
    keep = copy.deepcopy((a1, k1))
    plain = m.call(fn, *a1, **k1)
    s0, r0 = settings(), rstate()
    k = dict(k1, create_plot=True, ax=ax)
    out = m.call(fn, *a1, **k)
    s1 = settings()
    for key in s0:
        m.check("settings", s0[key] == s1[key], lambda: "%s on given axes changed the process setting '%s'" % (name, key))
    m.check("random stream", r0 == rstate(), "%s on given axes drew from the caller's random stream" % name)
    m.equal("given axes", sorted(plt.get_fignums()), sorted([fig0.number, fig.number]), "figures after %s drew on given axes" % name)
    m.equal("given axes", len(ax0.get_children()), n0, "contents of another figure after %s drew on given axes" % name)
    m.check("given axes", sum(len(q.lines) + len(q.collections) + len(q.patches) for q in fig.axes) > 0, "%s drew nothing on the given axes" % name)
    same(m, "inputs kept", (a1, k1), keep, "%s argument when drawing" % name)
    same(m, "repeatable", out, plain, "%s with and without drawing" % name)
    plt.close("all")
    m.nontrivial()


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
