"""Run a command of the package in a throwaway box.

The package is copied to a scratch directory first and imported from there, so the
code under test can damage neither /repo nor anything else: commands run in a forked
child that has dropped to an unprivileged user where possible, and an audit hook refuses
every file-system change outside the scratch directory.  The same hook is the fault
injector: the n-th change can fail, or the process can end just before it, or just after
a file was created empty.
"""
import atexit
import contextlib
import errno
import io
import json
import os
import shutil
import sys
import tempfile

from mc import core

NOBODY = 65534
PARENT = os.getpid()
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix="mcbox-"))
PKG = os.path.join(SCRATCH, "pkg", "adctoolbox")


def _cleanup():
    if os.getpid() == PARENT:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


def own(path):
    """Give the tree to the unprivileged user."""
    if os.geteuid() != 0:
        return
    os.lchown(path, NOBODY, NOBODY)
    for d, ds, fs in os.walk(path):
        for n in ds + fs:
            os.lchown(os.path.join(d, n), NOBODY, NOBODY)


def load(src, prepare=None):
    shutil.copytree(os.path.join(src, "adctoolbox"), PKG, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "output"))
    if prepare:
        prepare(PKG)
    os.chmod(SCRATCH, 0o755)
    own(os.path.join(SCRATCH, "pkg"))
    sys.path.insert(0, os.path.dirname(PKG))


def snap(root):
    """{relative path: kind and content} of everything under root."""
    out = {}
    if os.path.islink(root) or not os.path.isdir(root):
        return {"": _one(root)}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = _one(p)
    return out


def _one(p):
    if os.path.islink(p):
        return ("link", os.readlink(p))
    if os.path.isdir(p):
        return ("dir",)
    if os.path.isfile(p):
        with open(p, "rb") as f:
            return ("file", f.read())
    return ("missing",)


def sub(tree, name):
    """Part of a snapshot below one entry, the entry itself under the empty name."""
    out = {}
    for k, v in tree.items():
        if k == name:
            out[""] = v
        elif k.startswith(name + "/"):
            out[k[len(name) + 1:]] = v
    return out


def fresh():
    """A new empty box."""
    b = tempfile.mkdtemp(prefix="b-", dir=SCRATCH)
    return b


def drop(box):
    shutil.rmtree(box, ignore_errors=True)


CHANGES = {"os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.symlink", "os.link", "os.truncate"}
QUIET = {"os.chmod", "os.chown", "os.utime", "os.setxattr", "os.removexattr"}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _path(p, fd=-1):
    if isinstance(p, int):
        return None
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        base = os.getcwd() if fd is None or fd < 0 else os.readlink(f"/proc/self/fd/{fd}")
        p = os.path.join(base, p)
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


class _Guard:
    def __init__(self, fault):
        self.n = 0
        self.fault = fault          # (index, mode) or None
        self.escapes = []
        self.events = []
        self.on = True

    def __call__(self, ev, args):
        if not self.on:
            return
        paths = None
        if ev == "open":
            path, mode, flags = args[0], args[1], args[2]
            if isinstance(path, int) or not ((flags or 0) & WRITE):
                return
            paths = [(path, -1)]
        elif ev in ("os.rename", "os.link"):
            paths = [(args[0], args[2]), (args[1], args[3])]
        elif ev == "os.symlink":
            paths = [(args[1], args[2])]
        elif ev in ("os.mkdir",):
            paths = [(args[0], args[2] if len(args) > 2 else -1)]
        elif ev in ("os.remove", "os.rmdir"):
            paths = [(args[0], args[1] if len(args) > 1 else -1)]
        elif ev == "os.truncate" or ev in QUIET:
            paths = [(args[0], -1)]
        elif ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "socket.connect", "os.kill"):
            self.escapes.append(ev)
            raise PermissionError(errno.EPERM, f"{ev} is not available in the box")
        else:
            return
        self.on = False
        try:
            full = [_path(p, f) for p, f in paths]
            for p in full:
                if p is not None and p != "/dev/null" and not (p + "/").startswith(SCRATCH + "/"):
                    self.escapes.append(f"{ev} {p}")
                    raise PermissionError(errno.EPERM, f"outside the box: {p}")
            if ev in QUIET:
                return
            i = self.n
            self.n += 1
            self.events.append(f"{ev} {os.path.basename(str(full[0]))}")
            if self.fault and self.fault[0] == i:
                mode = self.fault[1]
                if mode == "fail":
                    raise OSError(errno.ENOSPC, "No space left on device")
                if mode == "torn" and ev == "open":
                    os.close(os.open(full[0], os.O_WRONLY | os.O_CREAT, 0o644))
                os._exit(77)
        finally:
            self.on = True


def run(fn, box, cwd=None, fault=None, argv=None):
    """Call fn() in a child working in the box; fn returns something JSON can carry.
    Result: dict(end='return'|'exit'|'raise'|'crash', value, out, err, changes, escapes)."""
    own(box)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(cwd or box)
            os.environ["HOME"] = os.path.join(box, "home")
            os.environ["TMPDIR"] = box
            tempfile.tempdir = None
            if os.geteuid() == 0:
                try:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                except OSError:
                    pass
            core.die_with_parent(core.LEAF_TIMEOUT_S)
            if argv is not None:
                sys.argv = list(argv)
            g = _Guard(fault)
            sys.addaudithook(g)
            out, err = io.StringIO(), io.StringIO()
            res = {"end": "return", "value": None}
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    res["value"] = fn()
                except SystemExit as e:
                    res["end"], res["value"] = "exit", e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException as e:      # noqa: BLE001
                    res["end"], res["value"] = "raise", f"{type(e).__name__}: {e}"[:300]
            g.on = False
            res.update(out=out.getvalue(), err=err.getvalue(), changes=g.n, escapes=g.escapes, events=g.events)
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77 and not text:
        return {"end": "crash", "value": None, "out": "", "err": "", "changes": None, "escapes": []}
    if not text:
        raise RuntimeError(f"child ended without a result, status {st}")
    return json.loads(text)


def code(res):
    """Exit status a shell would see; None for an uncaught exception's nonzero status."""
    if res["end"] in ("return", "exit"):
        return 0 if res["value"] is None else int(res["value"])
    return None
