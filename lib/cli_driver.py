"""Runs inside an unprivileged process: executes command-line operations on a scratch copy of the package, one JSON request per line.

An audit hook watches every file-changing primitive: it records the path it was given and refuses (as a stand-in for the real call)
anything outside the scratch directory.
"""
import contextlib
import filecmp
import io
import json
import os
import sys

ROOT = os.path.realpath(sys.argv[1])
sys.path.insert(0, os.path.join(ROOT, "pkg"))
os.environ["MPLBACKEND"] = "Agg"
import shutil  # noqa: E402
import adctoolbox  # noqa: E402
from adctoolbox import cli, skill_cli  # noqa: E402

assert os.path.realpath(adctoolbox.__file__).startswith(ROOT + os.sep), adctoolbox.__file__
log, armed = [], False
PATHS = {"os.remove": (0, 1), "os.rmdir": (0, 1), "os.mkdir": (0, 2), "os.rename": (0, 2), "os.symlink": (1, 2), "os.link": (1, 3), "os.truncate": (0, None), "os.chmod": (0, 2), "os.chown": (0, 3),
         "os.utime": (0, 3), "shutil.rmtree": (0, 1), "shutil.move": (1, None)}


class Escape(OSError):
    pass


def place(path, fd):
    if isinstance(path, int):
        path = os.readlink("/proc/self/fd/%d" % path)
    path = os.fsdecode(path)
    if isinstance(fd, int) and fd >= 0 and not os.path.isabs(path):
        path = os.path.join(os.readlink("/proc/self/fd/%d" % fd), path)
    head, tail = os.path.split(os.path.abspath(path))
    return os.path.join(os.path.realpath(head), tail)


def hook(event, args):
    if not armed:
        return
    where = None
    if event in PATHS:
        i, d = PATHS[event]
        fd = args[d] if d is not None and len(args) > d else -1
        where = place(args[i], fd)
        if event == "os.rename":
            log.append([event, place(args[1], args[3] if len(args) > 3 else -1)])
    elif event == "open":
        mode, flags = args[1], args[2]
        if isinstance(args[0], int):
            return
        wr = (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if wr:
            where = place(args[0], -1)
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.kill", "os.fork", "os.posix_spawn", "socket.connect"):
        log.append([event, str(args[0])[:200]])
        raise Escape("refused " + event)
    if where is not None:
        log.append([event, where])
        if not (where + os.sep).startswith(ROOT + os.sep):
            log.append(["ESCAPE " + event, where])
            raise Escape("refused %s on %s" % (event, where))


sys.addaudithook(hook)
real_copy2, real_copyfile = shutil.copy2, shutil.copyfile
for line in sys.stdin:
    q = json.loads(line)
    out, err, res = io.StringIO(), io.StringIO(), {}
    log = []
    filecmp.clear_cache()  # every request stands for a command in a process of its own
    os.chdir(q.get("cwd", ROOT))
    left = q.get("fail_after")
    if left is not None:  # the disk fills up after this many copied files
        count = [left]

        def full(src, dst, *a, **k):
            if count[0] <= 0:
                raise OSError(28, "No space left on device")
            count[0] -= 1
            return real_copyfile(src, dst, *a, **k)
        shutil.copyfile = full
    armed = True
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            if q["op"] == "install":
                res["value"] = [str(p) for p in skill_cli.install_bundled_skills(q["names"], dest=q["dest"], **q["kw"])]
            elif q["op"] == "status":
                res["value"] = skill_cli.skill_status(q["names"], dest=q["dest"], **q["kw"])
            elif q["op"] == "main":
                res["value"] = skill_cli.main(q["argv"])
            elif q["op"] == "examples":
                sys.argv = ["adctoolbox-get-examples"] + q["argv"]
                res["value"] = cli.copy_examples()
    except SystemExit as exc:
        res["exit"] = exc.code
    except BaseException as exc:
        res["error"] = type(exc).__name__
        res["kinds"] = [k.__name__ for k in type(exc).__mro__]
        res["text"] = str(exc)[:300]
    finally:
        armed = False
        shutil.copyfile = real_copyfile
    os.chdir(ROOT)
    res.update(log=log, out=out.getvalue(), err=err.getvalue())
    sys.stdout.write(json.dumps(res) + "\n")
    sys.stdout.flush()
