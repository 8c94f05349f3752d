"""Loads watched from inside the interpreter: what they open and what else they reach (see spec/Access.tla).

usage: access.py JOBS.ndjson OBS.ndjson SCRATCH
Audit events of everything that could change the outside are recorded and refused while a load runs.
"""
import json
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker  # noqa: E402
import pytiled_parser  # noqa: E402
from doc import encpath  # noqa: E402

PKG = os.path.dirname(os.path.realpath(pytiled_parser.__file__))
# what the interpreter itself may read when it imports something late
SYSTEM = tuple({os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, sys.exec_prefix, os.path.dirname(os.__file__), PKG)})
CODE = (".py", ".pyc", ".so", ".zip", ".pth", ".egg-info", ".dist-info")

EFFECTS = {
    "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
    "os.utime", "os.system", "os.exec", "os.fork", "os.forkpty", "os.spawn", "os.posix_spawn", "os.startfile", "os.kill", "os.killpg",
    "os.setxattr", "os.removexattr", "os.lockf", "os.chflags", "os.putenv", "os.unsetenv", "os.chdir", "os.fchdir", "os.chroot", "os.mkfifo", "os.mknod",
    "subprocess.Popen", "pty.spawn", "tempfile.mkstemp", "tempfile.mkdtemp", "urllib.Request", "webbrowser.open", "sqlite3.connect", "mmap.__new__",
    "ctypes.dlopen", "fcntl.flock", "fcntl.fcntl", "fcntl.lockf", "fcntl.ioctl", "resource.setrlimit", "syslog.syslog", "syslog.openlog",
    "signal.pthread_kill", "builtins.input", "builtins.breakpoint", "shutil.copyfile", "shutil.move", "shutil.rmtree", "shutil.copymode",
    "shutil.copystat", "shutil.copytree", "shutil.make_archive", "shutil.unpack_archive", "shutil.chown",
}
PREFIXES = ("socket.", "ftplib.", "http.client.", "smtplib.", "poplib.", "imaplib.", "nntplib.", "telnetlib.", "winreg.", "msvcrt.")

WATCH = [False]
BUSY = [False]
EVENTS = []
WRITEFLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Refused(PermissionError):
    pass


def place(p):
    if isinstance(p, int):
        return "fd"
    p = os.fsdecode(p)
    p = os.path.realpath(os.path.join(os.getcwd(), p))  # where it really is, links followed
    if p == worker.ROOT or p.startswith(worker.ROOT + os.sep):
        return encpath(p[len(worker.ROOT) + 1 :])
    return "/" + encpath(p[1:])


def record(k, path, what):
    e = {"k": k, "path": path, "what": what[:100]}
    if e not in EVENTS and len(EVENTS) < 50:
        EVENTS.append(e)


def hook(event, args):
    if not WATCH[0] or BUSY[0]:
        return
    BUSY[0] = True
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                if path > 2 or (isinstance(mode, str) and "r" not in mode):
                    record("effect", "fd %d" % path, "opened")
                    raise Refused("fd")
                return
            real = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(path)))
            write = bool(flags & WRITEFLAGS) if isinstance(flags, int) else any(c in str(mode) for c in "wax+")
            if not write and (real.startswith(SYSTEM) and (real.endswith(CODE) or os.path.isdir(real))):
                return
            record("effect" if write else "read", place(path), "open " + str(mode))
            if write:
                raise Refused(str(path))
        elif event in EFFECTS or event.startswith(PREFIXES):
            what = event
            at = place(args[0]) if args and isinstance(args[0], (str, bytes, os.PathLike)) and event.startswith("os.") else event
            record("state" if event in ("os.chdir", "os.fchdir", "os.putenv", "os.unsetenv") else "effect", at, what)
            raise Refused(event)
    finally:
        BUSY[0] = False


class Tee:
    """A standard stream that notes what is written."""

    def __init__(self, name):
        self.name, self.encoding, self.errors = name, "utf-8", "strict"

    def write(self, s):
        record("output", self.name, "write")
        return len(s)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def buffer(self):
        return self


def world_state():
    import locale

    return {
        "directory": os.getcwd(), "environment": dict(os.environ), "umask": umask(), "locale": locale.setlocale(locale.LC_ALL),
        "files": sorted(tree(worker.ROOT)),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def tree(root):
    for d, _, fs in os.walk(root):
        for f in fs:
            st = os.lstat(os.path.join(d, f))
            yield (os.path.join(d, f), st.st_size, st.st_mtime_ns, st.st_mode)
        yield (d,)


def observe(job, scratch):
    root = os.path.join(scratch, "r%d" % os.getpid())
    os.chdir("/")
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    worker.ROOT = os.path.realpath(root)
    worker.put_files(root, job["files"], job.get("dirs"), job.get("links", ()))
    path = worker.given(worker.ROOT, job["entry"], job.get("via", "abs"))
    del EVENTS[:]
    before = world_state()
    pipes = []
    for fd in (1, 2):
        r, w = os.pipe()
        os.set_blocking(r, False)
        os.set_blocking(w, False)
        pipes.append((fd, r, os.dup(fd)))
        os.dup2(w, fd)
        os.close(w)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Tee("stdout"), Tee("stderr")
    out, res = "ok", None
    WATCH[0] = True
    try:
        res = worker.call(job["call"], path)
    except BaseException as e:
        out = type(e).__name__
    finally:
        WATCH[0] = False
        sys.stdout, sys.stderr = old
    after = world_state()
    del res
    for fd, r, save in pipes:
        os.dup2(save, fd)
        os.close(save)
        try:
            if os.read(r, 10):
                record("output", "fd %d" % fd, "write")
        except BlockingIOError:
            pass
        os.close(r)
    for k in before:
        if before[k] != after[k]:
            record("state", k, "changed")
    os.chdir("/")
    return {"id": job["id"], "out": out, "events": list(EVENTS)}


def main():
    jobs, out, scratch = sys.argv[1:4]
    sys.addaudithook(hook)
    with open(jobs) as f, open(out, "w") as g:
        for line in f:
            g.write(json.dumps(observe(json.loads(line), scratch)) + "\n")


if __name__ == "__main__":
    main()
