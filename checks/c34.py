"""C34 file safety of the command-line tools (skill installer, example copier).

The tools run as an unprivileged user on a scratch copy of the package; an audit hook in that process records every file-changing primitive and
refuses those outside the scratch directory.  The parent compares whole file trees before and after with an independent model.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import _boot  # noqa: F401
import numpy as np
import vmon
import gen

PROPERTY = "C34"
RULE = "random histories of install, forced install, link install, status, listing and example copying over user-edited, linked, file-blocked, read-only and disk-full destinations; non-trivial = at least one operation changed or protected an existing entry"
REQUIRED_ORACLES = ["bundle kept", "neighbours kept", "refuses existing", "installed content", "link content", "returned paths", "status", "status changes nothing", "unknown name", "needs destination", "exit code", "confined",
                    "partial failure", "recovery", "examples content", "examples refuse", "listing", "link target kept", "own source"]
MIN_NONTRIVIAL = {"quick": 15, "thorough": 150}
HERE = os.path.dirname(os.path.abspath(__file__))
NOBODY = 65534
ALIAS = {"user": "adctoolbox-user-guide", "user-guide": "adctoolbox-user-guide", "adctoolbox-user-guide": "adctoolbox-user-guide",
         "dev": "adctoolbox-contributor-guide", "contributor": "adctoolbox-contributor-guide", "contributor-guide": "adctoolbox-contributor-guide", "adctoolbox-contributor-guide": "adctoolbox-contributor-guide"}
USER, DEV = "adctoolbox-user-guide", "adctoolbox-contributor-guide"


class Box:
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c34-"))
        os.chmod(self.root, 0o755)
        shutil.copytree(os.path.join(vmon.REPO_SRC, "adctoolbox"), os.path.join(self.root, "pkg", "adctoolbox"), ignore=shutil.ignore_patterns("__pycache__"))
        ex = os.path.join(self.root, "pkg", "adctoolbox", "examples")
        os.makedirs(os.path.join(ex, "01_basic", "__pycache__"))  # left by running an example in place
        for p in ("01_basic/__pycache__/x.cpython-312.pyc", "01_basic/stale.pyc"):
            with open(os.path.join(ex, p), "w") as fh:
                fh.write("compiled")
        os.makedirs(os.path.join(self.root, "home"))
        os.makedirs(os.path.join(self.root, "work"))
        for d, ds, fs in os.walk(self.root):
            for f in [d] + [os.path.join(d, x) for x in fs]:
                os.lchown(f, NOBODY, NOBODY)
        self.bundle = os.path.join(self.root, "pkg", "adctoolbox", "_bundled_skills", "skills")
        self.examples = ex
        self.pristine = source(self)
        with open(os.path.join(HERE, "..", "lib", "cli_driver.py")) as fh:
            src = fh.read()
        env = {"HOME": os.path.join(self.root, "home"), "PATH": "/usr/bin:/bin", "MPLCONFIGDIR": os.path.join(self.root, "home", "mpl"), "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8"}
        who = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
        self.proc = subprocess.Popen([sys.executable, "-c", src, self.root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.root, env=env, **who)

    def do(self, **q):
        self.proc.stdin.write(json.dumps(q) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise vmon.Inconclusive("driver process ended")
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(20)
        except Exception:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.root, ignore_errors=True)


BOX = None


def box():
    global BOX
    if BOX is None or BOX.proc.poll() is not None:
        BOX = Box()
    return BOX


def cases(rng, tier):
    n = 500 if tier == "quick" else 3000
    for i in range(n):
        yield {"seed": gen.seed_of(rng), "kind": ["hist", "hist", "cli", "fault", "examples"][i % 5]}


def tree(top, skip=()):
    """Path -> ('d',) | ('f', bytes) | ('l', target); links are not followed."""
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds + fs:
            p = os.path.join(d, x)
            r = os.path.relpath(p, top)
            if any(r == s or r.startswith(s + os.sep) for s in skip):
                continue
            if os.path.islink(p):
                out[r] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("d",)
            else:
                with open(p, "rb") as fh:
                    out[r] = ("f", fh.read())
    return out


def under(t, name):
    """The part of a tree at and below an entry."""
    return {k: v for k, v in t.items() if k == name or k.startswith(name + os.sep)}


def put(path, text="mine"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        fh.write(text)


def give(top):
    for d, ds, fs in os.walk(top):
        for f in [d] + [os.path.join(d, x) for x in ds + fs]:
            os.lchown(f, NOBODY, NOBODY)


def disturb(rng, dest, elsewhere, name, how):
    """Put the target entry into one of the states a user may have left it in."""
    t = os.path.join(dest, name)
    if os.path.islink(t) or os.path.isfile(t):
        os.unlink(t)
    elif os.path.isdir(t):
        shutil.rmtree(t)
    if how == "absent":
        return
    os.makedirs(dest, exist_ok=True)
    src = os.path.join(BOX.bundle, name)
    if how == "file":
        put(t, "a plain file")
    elif how == "own dir":
        put(os.path.join(t, "notes", "my.md"), "my notes")
    elif how == "link to own":
        put(os.path.join(elsewhere, "own", "keep.md"), "keep me")
        os.symlink(os.path.join(elsewhere, "own"), t)
    elif how == "link to file":
        put(os.path.join(elsewhere, "own.md"), "keep me")
        os.symlink(os.path.join(elsewhere, "own.md"), t)
    elif how == "dangling":
        os.symlink(os.path.join(elsewhere, "gone"), t)
    elif how == "link to bundle":
        os.symlink(src, t)
    elif how == "link to other":
        os.symlink(os.path.join(BOX.bundle, DEV if name == USER else USER), t)
    else:
        shutil.copytree(src, t)
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(t) for f in fs)
        f = files[gen.ri(rng, 0, len(files))]
        if how == "edited":
            with open(f, "rb") as fh:
                old = fh.read()
            st = os.stat(f)
            b = bytearray(old)
            b[len(b) // 2] ^= 1  # same size and times, other content
            with open(f, "wb") as fh:
                fh.write(bytes(b))
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif how == "extra":
            put(os.path.join(os.path.dirname(f), "extra.md"))
        elif how == "extra dir":
            os.makedirs(os.path.join(t, "more", "deep"))
        elif how == "short":
            os.unlink(f)
        elif how == "file as dir":
            os.unlink(f)
            os.makedirs(f)
        elif how == "touched":
            os.utime(f, (1, 1))
    give(dest)
    if os.path.isdir(elsewhere):
        give(elsewhere)


STATES = ["absent", "absent", "file", "own dir", "link to own", "link to file", "dangling", "link to bundle", "link to other", "copy", "edited", "extra", "extra dir", "short", "file as dir", "touched"]
MODE = {"absent": ("missing", False), "file": ("non-directory", False), "own dir": ("copy", False), "link to own": ("editable-link", False), "link to file": ("editable-link", False), "dangling": ("editable-link", False),
        "link to bundle": ("editable-link", True), "link to other": ("editable-link", False), "copy": ("copy", True), "touched": ("copy", True), "edited": ("copy", False), "extra": ("copy", False),
        "extra dir": ("copy", False), "short": ("copy", False), "file as dir": ("copy", False)}


def names_of(rng):
    """-> (names argument, keyword flags, CLI words, expected list or None if unknown)"""
    k = gen.ri(rng, 0, 6)
    if k == 0:
        return None, {}, [], [USER]
    if k in (1, 2):
        flag, word = (("install_dev", "--dev"), ("install_all", "--all"))[k - 1]
        ns = [gen.pick(rng, list(ALIAS)) for _ in range(gen.ri(rng, 1, 3))] if rng.random() < 0.4 else []  # a name next to the flag adds nothing
        return ns or None, {flag: True}, ns + [word], [USER, DEV]
    if k == 3 and rng.random() < 0.5:
        bad = gen.pick(rng, ["nope", "", "../evil", "adctoolbox-user-guide/", "User"])
        good = [gen.pick(rng, list(ALIAS))] if rng.random() < 0.5 else []
        return good + [bad], {}, good + [bad], None
    ns = [gen.pick(rng, list(ALIAS)) for _ in range(gen.ri(rng, 1, 4))]
    want = []
    for n in ns:
        if ALIAS[n] not in want:
            want.append(ALIAS[n])
    return ns, {}, ns, want


def confined(m, r, roots, what):
    bad = [e for e in r["log"] if e[0].startswith("ESCAPE")]
    m.check("confined", not bad, lambda: "%s tried to change files outside: %s" % (what, bad[:3]))
    bad = [e for e in r["log"] if e[0] not in ("open",) and not any(e[1] == q or e[1].startswith(q + os.sep) for q in roots)]
    bad = [e for e in bad if not e[1].startswith(os.path.join(BOX.root, "home", "mpl"))]
    m.check("confined", not bad, lambda: "%s changed files it was not asked to: %s" % (what, bad[:3]))


def run_case(c, m):
    rng = np.random.default_rng(c["seed"])
    B = box()
    work = os.path.join(B.root, "home" if c["kind"] == "hist" and c["seed"] % 4 == 0 else "work", "w%d" % c["seed"])
    os.makedirs(work)
    os.lchown(work, NOBODY, NOBODY)
    try:
        {"hist": hist, "cli": cmdline, "fault": fault, "examples": examples}[c["kind"]](c, m, rng, B, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if source(B) != B.pristine:
            restore(B)  # later cases are judged on their own
    m.sample(kind=c["kind"], seed=c["seed"])


def source(B):
    return {n: tree(os.path.join(B.bundle, n)) for n in (USER, DEV)}


def judge_install(m, rng, B, r, dest, els, want, before, src, overwrite, editable, states, what, cli=False):
    """Compare the tree after an install with the model."""
    after = tree(dest)
    m.equal("bundle kept", source(B) == src, True, "bundled skills after %s" % what)
    blocked = [n for n in want if states[n] != "absent"] if not overwrite else []
    done = want if not blocked else want[:want.index(blocked[0])]
    others = [k for k in before if k.split(os.sep)[0] not in (USER, DEV)]
    m.check("neighbours kept", all(after.get(k) == before[k] for k in others) and not [k for k in after if k.split(os.sep)[0] not in (USER, DEV) and k not in before], "entries next to the skills changed after %s" % what)
    for n in (USER, DEV):
        if n not in want:
            m.check("neighbours kept", under(after, n) == under(before, n), "a skill that was not requested changed after %s" % what)
    if blocked:
        if not cli:
            m.check("refuses existing", "FileExistsError" in r.get("kinds", []), lambda: "%s over an existing %s entry gave %s" % (what, states[blocked[0]], r.get("error", r.get("value"))))
        else:
            m.check("exit code", r.get("value") == 1 and r["err"].strip(), lambda: "%s over an existing entry: exit %s, message '%s'" % (what, r.get("value"), r["err"]))
        for n in blocked:
            m.check("refuses existing", under(after, n) == under(before, n), "existing %s entry changed without force after %s" % (states[n], what))
    else:
        if not cli:
            m.equal("returned paths", r.get("value"), [os.path.join(dest, n) for n in want], "%s (%s)" % (what, r.get("text")))
        else:
            m.check("exit code", r.get("value") == 0, lambda: "%s: exit %s, %s" % (what, r.get("value"), r["err"] or r.get("text")))
        for n in want:
            got = {os.path.relpath(k, n): v for k, v in under(after, n).items() if k != n}
            if editable:
                t = os.path.join(dest, n)
                m.check("link content", os.path.islink(t) and os.path.realpath(t) == os.path.realpath(os.path.join(B.bundle, n)), lambda: "%s: %s is not a link to the bundled skill" % (what, n))
            else:
                m.check("installed content", after.get(n) == ("d",) and got == src[n], lambda: "%s: %s differs from the bundled skill (was %s)" % (what, n, states[n]))
    return done


def hist(c, m, rng, B, work):
    dest, els = os.path.join(work, gen.pick(rng, ["skills", "a/b/skills", "with space"])), os.path.join(work, "else")
    src = source(B)
    home = os.path.join(B.root, "home")
    said = "~/" + os.path.relpath(dest, home) if dest.startswith(home + os.sep) else dest  # as the user writes it
    put(os.path.join(dest, "other-skill", "SKILL.md"), "not ours") if rng.random() < 0.7 else None
    if os.path.isdir(dest):
        give(work)
    for step in range(3):
        st = {}
        for n in (USER, DEV):
            st[n] = gen.pick(rng, STATES)
            disturb(rng, dest, els, n, st[n])
        before, eb = tree(dest), tree(els)
        arg, kw, words, want = names_of(rng)
        # status first: it must describe what is there and change nothing
        r = B.do(op="status", names=arg, dest=said, kw=kw)
        if want is None:
            m.check("unknown name", "ValueError" in r.get("kinds", []), "status of an unknown skill: %s" % r)
        else:
            rows = r.get("value")
            if not isinstance(rows, list):
                m.fail("status", "status raised %s %s" % (r.get("error"), r.get("text")))
            else:
                m.equal("status", [q["name"] for q in rows], want, "skills listed")
                for q in rows:
                    mode, synced = MODE[st[q["name"]]]
                    m.equal("status", (q["mode"], q["synced"], q["installed"]), (mode, synced, st[q["name"]] != "absent"), "status of a skill whose entry is '%s'" % st[q["name"]])
                    m.equal("status", q["target"], os.path.join(dest, q["name"]), "target shown")
        m.check("status changes nothing", tree(dest) == before and tree(els) == eb, "status changed files")
        m.equal("status changes nothing", [e for e in r["log"]], [], "file changes attempted by status")
        overwrite, editable = bool(rng.random() < 0.6), bool(rng.random() < 0.35)
        k2 = dict(kw)
        if overwrite:
            k2["overwrite"] = True
        if editable:
            k2["editable"] = True
        what = "install %s force=%s link=%s" % (words, overwrite, editable)
        r = B.do(op="install", names=arg, dest=said, kw=k2)
        if want is None:
            m.check("unknown name", "ValueError" in r.get("kinds", []), lambda: "installing an unknown skill gave %s" % r.get("error", r.get("value")))
            m.check("unknown name", tree(dest) == before and tree(els) == eb and source(B) == src, "installing an unknown skill changed files")
            continue
        confined(m, r, [os.path.join(dest, n) for n in want] + parents(dest, work), what)
        judge_install(m, rng, B, r, dest, els, want, before, src, overwrite, editable, st, what)
        m.check("link target kept", tree(els) == eb, lambda: "files that an entry pointed to changed after %s (states %s)" % (what, st))
        m.nontrivial(any(v != "absent" for v in st.values()))
        rows = B.do(op="status", names=None, dest=dest, kw={"install_all": True}).get("value") or []
        for q in rows:
            t = os.path.join(dest, q["name"])
            truth = os.path.realpath(t) == os.path.realpath(os.path.join(B.bundle, q["name"])) if os.path.islink(t) else os.path.isdir(t) and tree(t) == src[q["name"]]
            m.equal("status", q["synced"], bool(truth), "status after %s" % what)
    if rng.random() < 0.4:
        # the destination is the bundle itself: nothing may be lost
        r = B.do(op="install", names=None, dest=B.bundle, kw=dict(overwrite=bool(rng.random() < 0.7), editable=bool(rng.random() < 0.3), install_all=True))
        m.check("own source", source(B) == src, "installing over the bundled skills destroyed them (%s)" % r.get("error", r.get("value")))
    else:
        m.check("own source", True)


def restore(B):
    """Start again from a fresh scratch copy."""
    global BOX
    B.close()
    BOX = None


def parents(dest, work):
    """Directories that may have to be created on the way to the destination."""
    out, p = [], dest
    while p != work and len(p) > len(work):
        out.append(p)
        p = os.path.dirname(p)
    return out


def cmdline(c, m, rng, B, work):
    dest, els = os.path.join(work, "d"), os.path.join(work, "else")
    src = source(B)
    st = {}
    for n in (USER, DEV):
        st[n] = gen.pick(rng, STATES)
        disturb(rng, dest, els, n, st[n])
    give(work)
    before, eb = tree(dest), tree(els)
    arg, kw, words, want = names_of(rng)
    r = B.do(op="main", argv=["--list"], cwd=work)
    m.check("listing", r.get("value") == 0 and USER in r["out"] and DEV in r["out"] and r["log"] == [], "--list: %s" % r)
    r = B.do(op="main", argv=words, cwd=work)
    m.check("needs destination", r.get("exit") == 2 and not r["log"], lambda: "without a destination: %s" % {k: r.get(k) for k in ("exit", "value", "error", "log")})
    r = B.do(op="main", argv=words + ["--status"], cwd=work)
    m.check("needs destination", r.get("exit") == 2 and not r["log"], "status without a destination: %s" % r)
    if want is not None:
        r = B.do(op="main", argv=words + ["--status", "--dest", dest], cwd=work)
        m.check("exit code", r.get("value") == 0, "--status: %s" % r)
        for n in want:
            m.check("status", n in r["out"] and MODE[st[n]][0] in r["out"], "status output does not describe %s" % n)
        m.equal("status", r["out"].count("synced: yes"), sum(MODE[st[n]][1] for n in want), "skills shown as in sync")
        m.equal("status", r["out"].count("installed: yes"), sum(st[n] != "absent" for n in want), "skills shown as installed")
        m.equal("status changes nothing", r["log"], [], "file changes attempted by --status")
    m.check("status changes nothing", tree(dest) == before and tree(els) == eb, "listing or status changed files")
    overwrite, editable = bool(rng.random() < 0.5), bool(rng.random() < 0.35)
    rel = rng.random() < 0.5
    argv = words + (["--force"] if overwrite and rng.random() < 0.5 else ["--upgrade"] if overwrite else []) + (["--editable"] if editable else []) + ["--dest", "d" if rel else dest]
    r = B.do(op="main", argv=argv, cwd=work)
    if want is None:
        m.check("unknown name", r.get("value") == 1 and tree(dest) == before and tree(els) == eb, lambda: "unknown skill on the command line: exit %s" % r.get("value"))
    else:
        confined(m, r, [os.path.join(dest, n) for n in want] + parents(dest, work), "command %s" % argv)
        judge_install(m, rng, B, r, dest, els, want, before, src, overwrite, editable, st, "command %s" % argv, cli=True)
        m.check("link target kept", tree(els) == eb, "files that an entry pointed to changed after command %s" % argv)
    m.nontrivial(any(v != "absent" for v in st.values()))


def fault(c, m, rng, B, work):
    """Disk full part-way, or a destination that may not be written."""
    dest, els = os.path.join(work, "skills"), os.path.join(work, "else")
    src = source(B)
    put(os.path.join(dest, "other-skill", "SKILL.md"), "not ours")
    st = {}
    for n in (USER, DEV):
        st[n] = gen.pick(rng, STATES)
        disturb(rng, dest, els, n, st[n])
    give(work)
    before, eb = tree(dest), tree(els)
    if rng.random() < 0.4:
        os.lchown(dest, 0, 0)  # the user may look but not write
        os.chmod(dest, 0o755)
        sub = [os.path.join(dest, n) for n in (USER, DEV)]
        r = B.do(op="install", names=None, dest=dest, kw=dict(install_all=True))
        blocked = any(v != "absent" for v in st.values())
        m.check("partial failure", "OSError" in r.get("kinds", []), lambda: "install into a read-only directory gave %s" % r.get("value"))
        m.check("partial failure", tree(dest) == before and tree(els) == eb and source(B) == src, "failed install into a read-only directory changed files")
        os.lchown(dest, NOBODY, NOBODY)
    else:
        k = gen.ri(rng, 0, 4)
        r = B.do(op="install", names=None, dest=dest, kw=dict(install_all=True, overwrite=True), fail_after=k)
        failed = "value" not in r
        m.check("partial failure", failed, lambda: "a copy that ran out of space after %d files was reported as done" % k)
        after = tree(dest)
        m.check("bundle kept", source(B) == src, "bundled skills changed by a failed install")
        m.check("link target kept", tree(els) == eb, "files that an entry pointed to changed by a failed install")
        m.check("neighbours kept", under(after, "other-skill") == under(before, "other-skill"), "another skill changed by a failed install")
        rows = B.do(op="status", names=None, dest=dest, kw={"install_all": True}).get("value") or []
        for q in rows:
            t = os.path.join(dest, q["name"])
            truth = os.path.realpath(t) == os.path.realpath(os.path.join(B.bundle, q["name"])) if os.path.islink(t) else os.path.isdir(t) and tree(t) == src[q["name"]]
            m.equal("status", q["synced"], bool(truth), "status after a failed install")
    r = B.do(op="install", names=None, dest=dest, kw=dict(install_all=True, overwrite=True))
    m.check("recovery", r.get("value") == [os.path.join(dest, n) for n in (USER, DEV)] and all(tree(os.path.join(dest, n)) == src[n] for n in (USER, DEV)), lambda: "forced install after a failure: %s" % r.get("error", r.get("value")))
    m.nontrivial()


def examples(c, m, rng, B, work):
    src = tree(B.examples)
    want = {k: v for k, v in src.items() if "__pycache__" not in k.split(os.sep) and not k.endswith(".pyc")}
    how = gen.pick(rng, ["default", "named", "nested", "absolute", "exists dir", "exists file", "exists link", "exists empty", "dangling", "full", "dot"])
    name = {"default": "adctoolbox_examples", "named": "my examples", "nested": "a/b/ex", "absolute": os.path.join(work, "abs", "ex"), "dot": "."}.get(how, "ex")
    dest = os.path.join(work, name)
    put(os.path.join(work, "mine.txt"), "mine")
    put(os.path.join(work, "own", "keep.txt"), "keep")
    if how == "exists dir":
        put(os.path.join(dest, "01_basic", "mine.py"), "my edits")
    elif how == "exists file":
        put(dest, "file")
    elif how == "exists empty":
        os.makedirs(dest)
    elif how == "exists link":
        os.symlink(os.path.join(work, "own"), dest)
    elif how == "dangling":
        os.symlink(os.path.join(work, "nowhere"), dest)
    give(work)
    before = tree(work)
    q = dict(op="examples", argv=[] if how == "default" else [name], cwd=work)
    if how == "full":
        q["fail_after"] = gen.ri(rng, 0, 30)
    r = B.do(**q)
    after = tree(work)
    m.check("bundle kept", tree(B.examples) == src, "packaged examples changed by copying (%s)" % how)
    m.check("neighbours kept", all(after.get(k) == v for k, v in before.items()), "files in the working directory changed by copying examples (%s)" % how)
    if how in ("default", "named", "nested", "absolute"):
        m.check("exit code", r.get("exit", 0) in (0, None) and "error" not in r, lambda: "copying examples (%s): %s %s" % (how, r.get("exit"), r.get("error")))
        got = tree(dest)
        m.check("examples content", got == want, lambda: "copied examples differ: missing %s, extra %s" % (sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3]))
        confined(m, r, [dest] + parents(dest, work), "copying examples")
    else:
        m.check("examples refuse", r.get("exit") not in (0, None), lambda: "copying examples onto '%s' ended with %s" % (how, {k: r.get(k) for k in ("exit", "value", "error")}))
        if how != "full":
            m.check("examples refuse", after == before, "copying examples onto '%s' changed files" % how)
        else:
            r2 = B.do(op="examples", argv=["again"], cwd=work)
            m.check("recovery", tree(os.path.join(work, "again")) == want, "copying examples after a failed copy")
    m.nontrivial()


if __name__ == "__main__":
    try:
        rc = vmon.main(sys.modules[__name__])
    finally:
        if BOX is not None:
            BOX.close()
    sys.exit(rc)
