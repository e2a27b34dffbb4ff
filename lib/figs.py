"""Reads what a matplotlib figure actually shows: texts, curves, points, bars."""
import re
import numpy as np

NUM = r"([+-]{0,2}\d+(?:\.\d*)?(?:e[+-]?\d+)?|N/A|nan|[+-]?inf)"


def all_axes(fig):
    return list(fig.axes)


def texts(axes, hidden=True):
    """Every string shown in the axes: free texts, titles, legend entries."""
    out = []
    for ax in np.atleast_1d(np.array(axes, dtype=object)):
        out += [t.get_text() for t in ax.texts if hidden or t.get_visible()]
        out += [ax.get_title()]
        if ax.get_legend() is not None:
            out += [t.get_text() for t in ax.get_legend().get_texts()]
    return [t for t in out if t]


def find(axes, label, unit=""):
    """All numbers printed after `label` (regex), followed by `unit` (regex); as strings."""
    pat = re.compile(label + r"\s*[=:]?\s*" + NUM + r"\s*" + unit, re.I)
    return [q.groups() for t in texts(axes) for q in pat.finditer(t)]


def agrees(s, v):
    """Does the printed string show value v to its own number of digits?"""
    if s.lower() in ("n/a", "nan"):
        return not np.isfinite(v)
    s = s.replace("+-", "-").replace("++", "+")
    if "inf" in s.lower():
        return not np.isfinite(v)
    if not np.isfinite(v):
        return False
    d = len(s.split(".")[1]) if "." in s and "e" not in s.lower() else 0
    return abs(float(s) - v) <= 0.5 * 10.0 ** -d * (1 + 1e-6) + 1e-9 * abs(v)


def printed(m, oracle, axes, label, value, unit="", what=None, scale=1.0):
    """Exactly this value is printed after the label (all occurrences must agree, at least one needed)."""
    g = find(axes, label, unit)
    if not m.check(oracle, bool(g), lambda: "%s is not printed (texts %s)" % (what or label, texts(axes)[:14])):
        return
    for s in g:
        m.check(oracle, agrees(s[0], value * scale), lambda: "%s shown as %s, computed %r" % (what or label, s[0], value * scale))


def si(m, oracle, axes, label, value, base, what=None):
    """Value printed with an SI prefix before the unit `base`."""
    pre = {"": 1, "m": 1e-3, "u": 1e-6, "µ": 1e-6, "μ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "k": 1e3, "K": 1e3, "M": 1e6, "G": 1e9}
    pat = re.compile(label + r"\s*[=:]?\s*" + NUM + r"\s*([munpfkKMGµμ]?)" + base)
    g = [q.groups() for t in texts(axes) for q in pat.finditer(t)]
    if not m.check(oracle, bool(g), lambda: "%s is not printed (texts %s)" % (what or label, texts(axes)[:14])):
        return
    for s, p in g:
        m.check(oracle, agrees(s, value / pre[p]) or (abs(value) < 1e-12 and float(s) == 0), lambda: "%s shown as %s %s%s, computed %r" % (what or label, s, p, base, value))


def near(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.nanmax(np.abs(b), initial=0) if scale is None else scale
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-7 * s + 1e-300)))


def lines(axes):
    for ax in np.atleast_1d(np.array(axes, dtype=object)):
        for ln in ax.lines:
            yield np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel()


def curve(m, oracle, axes, x, y, what):
    """Some drawn line is exactly this curve."""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    ok = any(near(a, x) and near(b, y) for a, b in lines(axes) if a.shape == x.shape)
    m.check(oracle, ok, lambda: "no drawn curve equals %s (%d points)" % (what, x.size))


def marker(axes, x, y=None):
    """A single-point line at (x, y)."""
    for a, b in lines(axes):
        if a.size == 1 and abs(a[0] - x) <= 1e-9 * abs(x) + 1e-300 and (y is None or abs(b[0] - y) <= 1e-7 * (abs(y) + 1)):
            return True
    return False


def points(axes):
    """All scattered points of the axes, as an (n, 2) array."""
    out = [np.asarray(c.get_offsets(), float) for ax in np.atleast_1d(np.array(axes, dtype=object)) for c in ax.collections if type(c).__name__ == "PathCollection"]
    return np.concatenate(out) if out else np.zeros((0, 2))


def cloud(m, oracle, axes, x, y, what):
    """The scattered points are exactly these (any order, any split into groups)."""
    got, want = points(axes), np.column_stack([x, y]).astype(float)
    if not m.check(oracle, got.shape == want.shape, lambda: "%s: %d points drawn, expected %d" % (what, len(got), len(want))):
        return
    s = np.maximum(np.nanmax(np.abs(want), axis=0, initial=0), 1e-300)
    key = lambda a: a[np.lexsort((np.round(a[:, 1] / s[1], 6), np.round(a[:, 0] / s[0], 6)))]
    ok = near(key(got)[:, 0], key(want)[:, 0]) and abs(got[:, 1].sum() - want[:, 1].sum()) <= 1e-6 * s[1] * max(len(want), 1)
    if ok:  # sums of products pin down the pairing without relying on a sort order among near-equal points
        for p in (1, 2):
            ok = ok and abs(np.sum((got[:, 0] / s[0]) ** p * got[:, 1] / s[1]) - np.sum((want[:, 0] / s[0]) ** p * want[:, 1] / s[1])) <= 1e-6 * max(len(want), 1)
        ok = ok and abs(np.sum((got[:, 1] / s[1]) ** 2) - np.sum((want[:, 1] / s[1]) ** 2)) <= 1e-6 * max(len(want), 1)
    m.check(oracle, ok, lambda: "%s: the scattered points are not the computed ones" % what)


def bars(m, oracle, axes, x, h, what):
    """Bars with these centres and heights, and no others (NaN heights are bars without height)."""
    got = [(p.get_x() + p.get_width() / 2, p.get_height()) for ax in np.atleast_1d(np.array(axes, dtype=object)) for p in ax.patches if hasattr(p, "get_height")]
    got = np.array(got, float).reshape(-1, 2)
    x, h = np.asarray(x, float), np.asarray(h, float)
    if not m.check(oracle, len(got) == len(x), lambda: "%s: %d bars drawn, expected %d" % (what, len(got), len(x))):
        return
    o, w = np.argsort(got[:, 0]), np.argsort(x)
    m.check(oracle, near(got[o, 0], x[w]) and near(np.nan_to_num(got[o, 1]), np.nan_to_num(h[w])), lambda: "%s: bars %s, expected heights %s" % (what, got[o, 1][:6], h[w][:6]))


def inview(m, oracle, ax, y, what, x=None):
    """All these ordinates (and abscissae) lie inside the range the axes show."""
    for v, lim, name in ((y, ax.get_ylim(), "vertical"), (x, ax.get_xlim(), "horizontal")):
        if v is None:
            continue
        v = np.asarray(v, float).ravel()
        v = v[np.isfinite(v)]
        lo, hi = min(lim), max(lim)
        e = 1e-6 * (hi - lo)
        m.check(oracle, v.size == 0 or (v.min() >= lo - e and v.max() <= hi + e), lambda: "%s: %s range [%g, %g] cuts off data in [%g, %g]" % (what, name, lo, hi, v.min(), v.max()))
