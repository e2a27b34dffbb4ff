"""Shared runtime-monitoring harness.

A check module defines
    PROPERTY   property id
    RULE       what makes a case non-trivial (goes to the evidence file)
    cases(rng, tier)      generator of JSON-serialisable case dicts
    run_case(case, mon)   drives the real code on one case under the monitors
and calls ``main(module)``.

Verdicts are three-valued: 0 held, 1 violated (a VIOLATION line is printed),
2 inconclusive (harness error, or the monitors were not reached often enough).
"""
import json
import os
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/python/src")
EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


class Violation(Exception):
    """Raised to stop a case after a violation that makes the rest meaningless."""


class Inconclusive(Exception):
    pass


def setup_import():
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    import adctoolbox
    here = os.path.realpath(adctoolbox.__file__)
    if not here.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise Inconclusive("adctoolbox came from %s, not from %s" % (here, REPO_SRC))
    import matplotlib
    if matplotlib.get_backend().lower() != "agg":
        matplotlib.use("Agg")


def brief(x, n=6):
    import numpy as np
    if isinstance(x, np.ndarray):
        flat = x.reshape(-1)
        s = ", ".join("%.9g" % v if x.dtype.kind == "f" else str(v) for v in flat[:n])
        return "array%s[%s%s]" % (x.shape, s, ", ..." if flat.size > n else "")
    if isinstance(x, float) or (hasattr(x, "dtype") and getattr(x.dtype, "kind", "") == "f"):
        return "%.12g" % x
    r = repr(x)
    return r if len(r) < 200 else r[:200] + "..."


class Monitor:
    """Collects oracle evaluations, observations and violations for one run."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.by_oracle = {}
        self.violations = []
        self.known = []
        self.samples = []
        self.calls = {}
        self.worst = {}
        self.case = None
        self.case_evals = 0
        self.case_nontrivial = False
        self.skipped = {}

    # ---- driving the code under test -------------------------------------
    def call(self, fn, *args, **kwargs):
        """Call code under test; an exception here breaks the property."""
        name = getattr(fn, "__name__", str(fn))
        self.calls[name] = self.calls.get(name, 0) + 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs)
        except Exception as exc:  # the property promises a result here
            tb = traceback.extract_tb(exc.__traceback__)
            where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
            self.fail("no-exception", "%s raised %s: %s (at %s)" % (name, type(exc).__name__, str(exc)[:200], where))
            raise Violation()

    def expect_raise(self, oracle, exc_types, fn, *args, **kwargs):
        name = getattr(fn, "__name__", str(fn))
        self.calls[name] = self.calls.get(name, 0) + 1
        self._count(oracle)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kwargs)
        except exc_types:
            return True
        except Exception as exc:
            self._fail(oracle, "%s raised %s (%s), expected %s" % (name, type(exc).__name__, str(exc)[:120], exc_types))
            return False
        self._fail(oracle, "%s accepted invalid input and returned %s" % (name, brief(out)))
        return False

    # ---- oracles ---------------------------------------------------------
    def _count(self, oracle):
        self.evaluations += 1
        self.case_evals += 1
        self.by_oracle[oracle] = self.by_oracle.get(oracle, 0) + 1

    def _fail(self, oracle, text):
        self.violations.append({"oracle": oracle, "what": text, "case": self.case})

    def fail(self, oracle, text):
        self._count(oracle)
        self._fail(oracle, text)

    def check(self, oracle, ok, text=""):
        self._count(oracle)
        if not ok:
            self._fail(oracle, text() if callable(text) else text)
        return bool(ok)

    def close(self, oracle, got, want, rtol=0.0, atol=0.0, what=""):
        """Element-wise |got-want| <= atol + rtol*|want|; NaN must match NaN."""
        import numpy as np
        self._count(oracle)
        g, w = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float), np.asarray(want, dtype=complex if np.iscomplexobj(want) else float)
        if g.shape != w.shape:
            self._fail(oracle, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        with np.errstate(all="ignore"):
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            diff = np.abs(g - w)
            lim = atol + rtol * np.abs(w)
            ok = same | (diff <= lim)
            finite = diff[np.isfinite(diff) & ~same]
        if finite.size:
            with np.errstate(all="ignore"):
                ratio = np.max(np.where(np.isfinite(diff) & ~same, diff / np.maximum(lim, 1e-300), 0.0))
            key = oracle
            if ratio > self.worst.get(key, -1.0):
                self.worst[key] = float(ratio)
        if not np.all(ok):
            i = int(np.argmax(np.where(ok, -1.0, np.nan_to_num(np.where(np.isfinite(diff), diff, np.inf), nan=np.inf, posinf=1e300))))
            self._fail(oracle, "%s: got %s, expected %s (tolerance %.3g)%s" % (
                what, brief(g.reshape(-1)[i].item() if not np.iscomplexobj(g) else g.reshape(-1)[i]),
                brief(w.reshape(-1)[i].item() if not np.iscomplexobj(w) else w.reshape(-1)[i]),
                float(np.broadcast_to(lim, g.shape).reshape(-1)[i]),
                " at flat index %d of %s" % (i, g.shape) if g.size > 1 else ""))
            return False
        return True

    def equal(self, oracle, got, want, what=""):
        import numpy as np
        self._count(oracle)
        try:
            if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
                g, w = np.asarray(got), np.asarray(want)
                ok = g.shape == w.shape and (np.array_equal(g, w, equal_nan=True) if g.dtype.kind in "fc" and w.dtype.kind in "fc" else np.array_equal(g, w))
            else:
                ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            self._fail(oracle, "%s: got %s, expected %s" % (what, brief(got), brief(want)))
        return ok

    def nontrivial(self, yes=True):
        self.case_nontrivial = self.case_nontrivial or bool(yes)

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append({k: brief(v) if not isinstance(v, (int, float, str, bool, type(None))) else v for k, v in kw.items()})

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def known_finding(self, text):
        if text not in self.known:
            self.known.append(text)


def _load_known():
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [ln.strip() for ln in fh if ln.strip() and not ln.startswith("#")]


def _sig(case):
    return json.dumps(case, sort_keys=True, default=str)


def main(mod, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    prop = mod.PROPERTY
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    tier = os.environ.get("VERIF_TIER", "") or ("thorough" if "--thorough" in argv else "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        print("error: unknown tier %r" % tier)
        return EXIT_ERROR
    t0 = time.time()
    try:
        setup_import()
    except Exception:
        traceback.print_exc()
        print("error: %s: the package could not be imported; inconclusive" % prop)
        return EXIT_ERROR
    import numpy as np
    warnings.simplefilter("ignore")
    mon = Monitor(prop)
    rng = np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(prop.encode())])
    distinct = set()
    n_cases = 0
    errors = 0
    if replay:
        with open(replay) as fh:
            stream = [json.load(fh)["case"]]
    else:
        stream = mod.cases(rng, tier)
    budget = float(os.environ.get("VERIF_BUDGET_S", "0") or 0) or (240.0 if tier == "quick" else 700.0)
    limit = int(os.environ.get("VERIF_MAX_VIOLATIONS", "25") or 25)
    complete = True
    try:
        for case in stream:
            n_cases += 1
            mon.case, mon.case_evals, mon.case_nontrivial = case, 0, False
            np.random.seed((seed * 1000003 + n_cases) & 0x7FFFFFFF)
            try:
                mod.run_case(case, mon)
            except Violation:
                pass
            except Inconclusive as exc:
                mon.skip(str(exc))
            except (MemoryError, OSError):
                raise
            except Exception as exc:
                # the oracles could not even be evaluated on what the code returned (missing field, wrong shape or type)
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                mon.fail("malformed result", "result could not be judged: %s: %s (%s:%d)" % (
                    type(exc).__name__, str(exc)[:160], os.path.basename(tb.filename), tb.lineno))
            if mon.case_evals and mon.case_nontrivial:
                distinct.add(_sig(case))
            if len(mon.violations) >= limit:
                complete = False
                break
            if time.time() - t0 > budget:
                complete = False
                print("note: stopped after %d cases at the time cap; counts below are what ran" % n_cases)
                break
    except Exception:
        traceback.print_exc()
        print("error: %s: harness failure on case %s" % (prop, brief(mon.case)))
        errors = 1
    wall = time.time() - t0

    level = getattr(mod, "LEVEL", "exploration")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": mon.evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": mon.samples or ["(none)"],
            "cases": n_cases,
            "case_stream_finished": complete,
            "oracle_evaluations": mon.by_oracle,
            "code_under_test_calls": mon.calls,
            "worst_error_over_tolerance": mon.worst,
            "skipped": mon.skipped,
        },
        "wall_s": round(wall, 3),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(mon.violations),
    }
    if mon.violations:
        ev["coverage"]["violations_observed"] = [{"oracle": v["oracle"], "what": v["what"]} for v in mon.violations[:25]]
    if mon.known:
        ev["coverage"]["known_findings_observed"] = mon.known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        path = os.path.join(VERIF, "evidence", prop + ".json")
        tmp = "%s.%d.tmp" % (path, os.getpid())
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, path)

    for text in mon.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if mon.violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        v = mon.violations[0]
        rpath = os.path.join(rdir, "%s-%s-seed%d.json" % (prop, tier, seed))
        with open(rpath, "w") as fh:
            json.dump({"property": prop, "case": v["case"], "oracle": v["oracle"], "what": v["what"],
                       "rerun": "python checks/%s.py --replay %s" % (prop.lower(), rpath)}, fh, indent=1, default=str)
        for v in mon.violations[:5]:
            print("  [%s] %s\n      case: %s" % (v["oracle"], v["what"], brief(v["case"])))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return EXIT_VIOLATION
    if errors:
        return EXIT_ERROR
    need = getattr(mod, "MIN_NONTRIVIAL", {"quick": 5, "thorough": 5})[tier] if not replay else 0
    missing = [o for o in getattr(mod, "REQUIRED_ORACLES", []) if not mon.by_oracle.get(o)] if not replay else []
    if len(distinct) < need or missing or (not replay and not mon.evaluations):
        print("error: %s inconclusive: %d distinct non-trivial cases (need %d), oracles never reached: %s" % (
            prop, len(distinct), need, missing))
        return EXIT_ERROR
    print("held: property=%s tier=%s seed=%d cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, n_cases, mon.evaluations, len(distinct), wall))
    return EXIT_OK
