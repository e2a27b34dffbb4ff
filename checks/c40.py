"""C40 the bundled examples run as shipped, keep to their own folder, and everything they call behaves."""
import sys
import _boot  # noqa: F401
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile
import numpy as np
import vmon

PROPERTY = "C40"
RULE = ("every bundled example is copied out and run from an unrelated working directory in an unprivileged process with all public functions watched; "
        "non-trivial = the example finished, called the package or printed its results")
REQUIRED_ORACLES = ["example finishes", "writes only in its own folder", "announced files exist", "arguments unchanged", "same without drawing", "no figure unasked", "metric relations", "finite metrics", "figure is a picture"]
MIN_NONTRIVIAL = {"quick": 45, "thorough": 45}
NOBODY = 65534
SLOW = ("exp_ti02", "exp_t02", "exp_d16", "exp_t04", "exp_a03", "exp_g03", "exp_s13")
ANNOUNCED = re.compile(r"^\s*\[Save[^\]]*\](?:\s*->)?\s*\[?(.+?)\]?\s*$", re.M)
_pool, _jobs, _scratch = None, {}, None


def source():
    import adctoolbox
    return os.path.dirname(os.path.realpath(adctoolbox.__file__))


def prepare():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="vex.")
        atexit.register(shutil.rmtree, _scratch, True)
        shutil.copytree(source(), os.path.join(_scratch, "pkg", "adctoolbox"), ignore=shutil.ignore_patterns("examples", "__pycache__", "output"))
        shutil.copy(os.path.join(vmon.VERIF, "lib", "ex_driver.py"), os.path.join(_scratch, "ex_driver.py"))
        import matplotlib.font_manager  # noqa: F401  builds the font cache once
        mpl = os.path.join(_scratch, "mpl")
        shutil.copytree(matplotlib.get_cachedir(), mpl)
        os.chmod(_scratch, 0o755)
    return _scratch


def run_example(name, seed):
    root = os.path.join(_scratch, "run-" + os.path.basename(name)[:-3])
    os.mkdir(root)
    shutil.copytree(os.path.join(source(), "examples"), os.path.join(root, "examples"), ignore=shutil.ignore_patterns("__pycache__", "output"))
    shutil.copytree(os.path.join(_scratch, "mpl"), os.path.join(root, "mpl"))
    for d in ("elsewhere", "home", "tmp"):
        os.mkdir(os.path.join(root, d))
    report = os.path.join(root, "report.json")
    who = {}
    if os.getuid() == 0:
        for d, _, files in os.walk(root):
            os.chown(d, NOBODY, NOBODY)
            for f in files:
                os.chown(os.path.join(d, f), NOBODY, NOBODY)
        who = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    before = listing(root)
    env = {"PATH": os.environ.get("PATH", ""), "HOME": os.path.join(root, "home"), "TMPDIR": os.path.join(root, "tmp"), "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(root, "mpl"),
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONIOENCODING": "utf-8"}
    try:
        p = subprocess.run([sys.executable, "-s", os.path.join(_scratch, "ex_driver.py"), root, os.path.join(root, "examples", name), str(seed), report, os.path.join(_scratch, "pkg")],
                           cwd=os.path.join(root, "elsewhere"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, **who)
    except subprocess.TimeoutExpired:
        return {"timeout": True}
    if not os.path.exists(report):
        return {"crash": "exit %s: %s" % (p.returncode, p.stdout.decode(errors="replace")[-600:])}
    with open(report) as fh:
        rep = json.load(fh)
    rep["new"] = sorted(set(listing(root)) - set(before) - {"report.json"})
    rep["announced"] = []
    for path in ANNOUNCED.findall(rep["out"]):
        path = path.strip()
        full = path if os.path.isabs(path) else os.path.join(root, "elsewhere", path)
        head = b""
        if os.path.isfile(full):
            with open(full, "rb") as fh:
                head = fh.read(8)
        rep["announced"].append([os.path.relpath(os.path.realpath(full), root), os.path.getsize(full) if os.path.isfile(full) else -1, head.hex()])
    rep["pictures"] = []
    for f in rep["new"]:
        if f.endswith(".png"):
            import matplotlib.image
            img = matplotlib.image.imread(os.path.join(root, f))
            rep["pictures"].append([f, list(img.shape), float(np.std(img[..., :3]))])
    shutil.rmtree(root, True)
    return rep


def listing(root):
    return [os.path.relpath(os.path.join(d, f), root) for d, _, files in os.walk(root) for f in files if not d.startswith(os.path.join(root, "mpl"))]


def cases(rng, tier):
    global _pool
    base = os.path.join(source(), "examples")
    names = sorted(os.path.join(d, f) for d in os.listdir(base) if os.path.isdir(os.path.join(base, d)) for f in os.listdir(os.path.join(base, d)) if f.startswith("exp_") and f.endswith(".py")) if os.path.isdir(base) else []
    if tier == "quick":
        names = [n for n in names if not os.path.basename(n).startswith(SLOW)]
    names.sort(key=lambda n: not os.path.basename(n).startswith(SLOW))
    todo = [(n, int(rng.integers(1 << 30))) for n in names]
    prepare()
    _pool = concurrent.futures.ThreadPoolExecutor(max(2, min(8, os.cpu_count() or 2)))
    for n, s in todo:
        _jobs[n] = _pool.submit(run_example, n, s)
    try:
        for n, s in sorted(todo, key=lambda t: os.path.basename(t[0]).startswith(SLOW)):
            yield {"example": n, "seed": s}
    finally:
        _pool.shutdown(wait=False, cancel_futures=True)


def run_case(c, m):
    prepare()
    job = _jobs.get(c["example"])
    rep = job.result() if job else run_example(c["example"], c["seed"])
    name = c["example"]
    if rep.get("timeout"):
        m.skip("example did not finish in the time allowed")
        return
    if "crash" in rep:
        raise vmon.Inconclusive("the driver died before it could report: " + rep["crash"][-200:])
    for k, v in rep["calls"].items():
        m.calls[k] = m.calls.get(k, 0) + v
    m.check("example finishes", rep["exit"] == 0, lambda: "%s ended with %s\n%s" % (name, rep["exit"], rep.get("trace", "")[-700:]))
    m.check("writes only in its own folder", not rep["escapes"], lambda: "%s tried to change %s" % (name, rep["escapes"][:5]))
    home = "examples/" + os.path.dirname(name) + "/"
    stray = [f for f in rep["new"] if not f.startswith(home)]
    m.check("writes only in its own folder", not stray, lambda: "%s left files outside its folder: %s" % (name, stray[:5]))
    for path, size, head in rep["announced"]:
        m.check("announced files exist", size > 0 and path in rep["new"], lambda: "%s announced %s, which is %s" % (name, path, "missing" if size < 0 else "empty" if size == 0 else "not new"))
        if path.endswith(".png") and size > 0:
            m.check("figure is a picture", head == "89504e470d0a1a0a", lambda: "%s: %s does not start like a PNG file (%s)" % (name, path, head))
    for path, shape, spread in rep["pictures"]:
        m.check("figure is a picture", shape[0] > 100 and shape[1] > 100 and spread > 1e-3, lambda: "%s: %s is blank or tiny (%s, spread %g)" % (name, path, shape, spread))
    for o, k in rep["oracles"].items():
        m.evaluations += k
        m.case_evals += k
        m.by_oracle[o] = m.by_oracle.get(o, 0) + k
    for o, text in rep["bad"]:
        m.fail(o, "%s: %s" % (name, text))
    m.nontrivial(rep["exit"] == 0 and (rep["calls"] or rep["out"].strip()))
    if rep["calls"]:
        m.sample(example=name, calls=str(rep["calls"])[:160], files=len(rep["new"]), oracles=str(rep["oracles"])[:160])


if __name__ == "__main__":
    sys.exit(vmon.main(sys.modules[__name__]))
