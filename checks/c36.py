"""C36 data validation accepts sound records and refuses or flags each defect wherever it sits."""
import re
import sys
import warnings
import _boot  # noqa: F401
import numpy as np
import vmon
import gen
from adctoolbox.fundamentals import validate_aout_data, validate_dout_data

PROPERTY = "C36"
RULE = "sound analog records and bit matrices in many storage types, and the same data with exactly one planted defect at a random place; non-trivial = a defect was planted or the storage is not plain float64"
REQUIRED_ORACLES = ["sound analog accepted", "sound bits accepted", "no warning on sound data", "bad sample", "not real numbers", "shape", "length", "flat line", "weak signal warning",
                    "not a bit", "stuck bit warning", "stuck bit index", "transposed warning", "input kept"]
MIN_NONTRIVIAL = {"quick": 400, "thorough": 8000}


def cases(rng, tier):
    kinds = ["aok", "anan", "ashape", "alen", "aflat", "aweak", "dok", "dbad", "dshape", "dlen", "dstuck", "dtrans", "dnan", "atype"]
    for i in range(14000 if tier == "quick" else 70000):
        yield {"seed": gen.seed_of(rng), "kind": kinds[i % len(kinds)]}


def watch(m, f, *a, **k):
    """(raised type or None, warning texts); the call is counted as a call of the code under test."""
    m.calls[f.__name__] = m.calls.get(f.__name__, 0) + 1
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            f(*a, **k)
            e = None
        except Exception as exc:
            e = exc
    return e, [str(q.message) for q in w if issubclass(q.category, UserWarning)]


def accept(m, oracle, f, *a, warn=False, what="", **k):
    e, w = watch(m, f, *a, **k)
    m.check(oracle, e is None, lambda: "%s: sound data refused with %s: %s" % (what, type(e).__name__, e))
    if e is None and not warn:
        m.check("no warning on sound data", not w, lambda: "%s: sound data drew the warning %r" % (what, w[0]))
    return w


def refuse(m, oracle, f, *a, what="", **k):
    e, _ = watch(m, f, *a, **k)
    m.check(oracle, isinstance(e, ValueError), lambda: "%s: expected a ValueError, got %s" % (what, "acceptance" if e is None else "%s: %s" % (type(e).__name__, e)))


def analog(rng, N):
    """A record and its storage form; values reach the ends of narrow integer types."""
    x = np.sin(2 * np.pi * rng.uniform(0.01, 0.49) * np.arange(N) + rng.uniform(0, 6.28)) + 1e-3 * rng.standard_normal(N)
    x /= np.abs(x).max()
    form = gen.pick(rng, ["f8", "f4", "i1", "i2", "i4", "i8", "u1", "u2", "list", "f2", ">f8", "strided", "readonly"])
    if form[0] in "iu" and form != "list":
        info = np.iinfo(form)
        mid, half = (info.max + info.min) / 2, min((info.max - info.min) / 2, 2.0 ** 40)
        x = np.clip(np.round(mid + half * x), info.min, info.max)
        if info.bits < 64:
            x[int(np.argmax(x))], x[int(np.argmin(x))] = info.max, info.min
        return x.astype(form), form
    x = x * gen.logu(rng, 1e-3, 1e3) + (gen.logu(rng, 1e-3, 1e2) if form != "f2" else 0)
    if form == "list":
        return list(x), form
    if form == "strided":
        return np.repeat(x, 2)[::2], form
    if form == "readonly":
        x.flags.writeable = False
        return x, form
    return x.astype(form), form


def matrix(rng, N, B):
    b = (rng.random((N, B)) < rng.uniform(0.1, 0.9, B)).astype(float)
    for j in range(B):  # no stuck column by chance
        i0, i1 = rng.choice(N, 2, replace=False)
        b[i0, j], b[i1, j] = 0, 1
    return b


def store(rng, b):
    form = gen.pick(rng, ["f8", "f4", "i1", "u1", "i4", "i8", "?", "list", "F", "u2"])
    if form == "list":
        return b.astype(int).tolist(), form
    if form == "F":
        return np.asfortranarray(b), form
    return b.astype(form), form


def indices(texts, level):
    """Bit indices named by the warning about bits stuck at `level`; None if no warning can be read that way."""
    for t in texts:
        q = re.search(r"stuck\D*([01])\D.*?\[([\d,\s]*)\]", t, re.S)
        if q and int(q.group(1)) == level:
            return [int(v) for v in re.findall(r"\d+", q.group(2))]
    return None


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    if kind[0] == "a":
        N = gen.length(rng, [100, 101, 128, 500, 1024])
        x, form = analog(rng, N)
        two = kind != "ashape" and form != "list" and rng.random() < 0.3
        if two:
            x = np.stack([np.asarray(x)] * gen.ri(rng, 2, 4), axis=gen.ri(rng, 0, 2))
        what = "analog %s %s" % (form, np.shape(x))
        m.nontrivial(kind != "aok" or form != "f8")
        if kind == "aok":
            keep = np.array(x)
            accept(m, "sound analog accepted", validate_aout_data, x, what=what)
            m.equal("input kept", np.array(x), keep, "caller's record")
            m.sample(kind=kind, form=form, shape=str(np.shape(x)))
        elif kind == "anan":
            if np.asarray(x).dtype.kind != "f":
                x = np.asarray(x, float)
            y = np.array(x)
            v = gen.pick(rng, [np.nan, np.inf, -np.inf])
            y[tuple(gen.ri(rng, 0, s) for s in y.shape)] = v
            refuse(m, "bad sample", validate_aout_data, list(y) if form == "list" else y, what="%s with one %r" % (what, v))
        elif kind == "atype":
            bad = gen.pick(rng, ["complex", "str", "bool", "object", "empty"])
            y = np.asarray(x)
            y = {"complex": y + 1j * 0, "str": y.astype(str), "bool": y > np.median(y), "object": y.astype(object), "empty": np.array([])}[bad]
            if bad == "object":
                y.reshape(-1)[gen.ri(rng, 0, y.size)] = gen.pick(rng, [None, "x"])
            refuse(m, "not real numbers", validate_aout_data, y, what="analog %s" % bad)
        elif kind == "ashape":
            y = np.asarray(x).reshape((1, -1, 1) if rng.random() < 0.5 else (-1, 1, 1))
            refuse(m, "shape", validate_aout_data, y, what="analog shape %s" % (y.shape,))
        elif kind == "alen":
            n = np.shape(x)[0] if not two else max(np.shape(x))
            if rng.random() < 0.5:
                accept(m, "length", validate_aout_data, x, min_samples=n, what="%s with as many samples as needed" % what)
                refuse(m, "length", validate_aout_data, x, min_samples=n + 1, what="%s with one sample short" % what)
            else:
                y = np.sin(np.arange(99.0))
                refuse(m, "length", validate_aout_data, y, what="99 samples, default need")
                accept(m, "length", validate_aout_data, np.sin(np.arange(100.0)), what="100 samples, default need")
        elif kind == "aflat":
            y = np.full(np.shape(x), gen.pick(rng, [0, 1, -3, 100]), dtype=np.asarray(x).dtype if np.asarray(x).dtype.kind != "u" else float)
            refuse(m, "flat line", validate_aout_data, y, what="constant %s" % what)
            y = y.copy()
            y[tuple(gen.ri(rng, 0, s) for s in y.shape)] += 1
            accept(m, "flat line", validate_aout_data, y, what="constant but for one sample, %s" % what)
        elif kind == "aweak":
            r = 10 ** rng.uniform(-20, -3)
            y = np.sin(0.3 * np.arange(N) + rng.uniform(0, 6))
            y = (y - y.min()) / (y.max() - y.min()) * r
            r = float(y.max() - y.min())
            if abs(r / 1e-10 - 1) < 0.01:
                return m.skip("range at the threshold")
            w = accept(m, "sound analog accepted", validate_aout_data, y, warn=r < 1e-10, what="range %.3g" % r)
            m.check("weak signal warning", bool(w) == (r < 1e-10), "range %.3g: %s" % (r, "no warning" if not w else "warning %r" % w[0]))
        return
    N, B = gen.length(rng, [100, 101, 256, 1000]), gen.ri(rng, 1, 17)
    b = matrix(rng, N, B)
    x, form = store(rng, b)
    what = "bits %s %dx%d" % (form, N, B)
    m.nontrivial(kind != "dok" or form != "f8")
    if kind == "dok":
        keep = np.array(x)
        accept(m, "sound bits accepted", validate_dout_data, x, what=what)
        m.equal("input kept", np.array(x), keep, "caller's bits")
    elif kind == "dbad":
        v = gen.pick(rng, [2, -1, 0.5, 3, 127, 1.0000001, -0.25])
        t = float if v != int(v) else gen.pick(rng, [float, np.int8, np.int64])
        y = b.astype(t)
        y[gen.ri(rng, 0, N), gen.ri(rng, 0, B)] = v
        refuse(m, "not a bit", validate_dout_data, y, what="%s with one %r" % (what, v))
        if rng.random() < 0.3:
            refuse(m, "not a bit", validate_dout_data, 2 * b - 1, what="plus/minus one decisions")
    elif kind == "dnan":
        y = b.copy()
        y[gen.ri(rng, 0, N), gen.ri(rng, 0, B)] = gen.pick(rng, [np.nan, np.inf, -np.inf])
        refuse(m, "bad sample", validate_dout_data, y, what="%s with one bad entry" % what)
        refuse(m, "not real numbers", validate_dout_data, gen.pick(rng, [b + 0j, b.astype(str), np.zeros((0, B)), np.zeros((N, 0))]), what="bits of another type or empty")
    elif kind == "dshape":
        y = gen.pick(rng, [np.asarray(x)[:, 0], np.asarray(x)[:, :, None], np.asarray(x).reshape(-1)])
        refuse(m, "shape", validate_dout_data, y, what="bits of shape %s" % (y.shape,))
    elif kind == "dlen":
        accept(m, "length", validate_dout_data, x, min_samples=N, what="%s with as many samples as needed" % what)
        refuse(m, "length", validate_dout_data, x, min_samples=N + 1, what="%s with one sample short" % what)
        refuse(m, "length", validate_dout_data, matrix(rng, 99, B), what="99 samples, default need")
    elif kind == "dstuck":
        lo = sorted(rng.choice(B, gen.ri(rng, 0, B + 1), replace=False).tolist())
        hi = [j for j in range(B) if j not in lo and rng.random() < 0.4]
        y = b.copy()
        y[:, lo], y[:, hi] = 0, 1
        if not (lo or hi):
            return m.skip("no stuck bit drawn")
        y = y.astype(gen.pick(rng, ["f8", "i1", "u1", "i8", "?", "f4"]))
        e, w = watch(m, validate_dout_data, y)
        m.check("sound bits accepted", e is None, lambda: "stuck bits refused (%s) where a warning is promised" % e)
        m.check("stuck bit warning", len(w) >= 1, "no warning for bits stuck at 0 %s, at 1 %s" % (lo, hi))
        for level, want in ((0, lo), (1, hi)):
            got = indices(w, level)
            if got is not None or not any(indices(w, q) is not None for q in (0, 1)):
                if got is not None:
                    m.equal("stuck bit index", got, want, "bits reported stuck at %d" % level)
            else:
                m.check("stuck bit index", not want, "no warning names the bits %s stuck at %d (warnings %s)" % (want, level, w))
    elif kind == "dtrans":
        n = gen.ri(rng, 2, 30)
        wide = n + gen.pick(rng, [0, 1, 5, 40])
        y = matrix(rng, n, wide)
        e, w = watch(m, validate_dout_data, y, min_samples=n)
        m.check("sound bits accepted", e is None, lambda: "wide matrix refused (%s) where a warning is promised" % e)
        m.check("transposed warning", bool(w) == (wide > n), "%d samples x %d bits: warnings %s" % (n, wide, w))


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
