"""
Simulated storage: every file-system operation of the code under test goes
through here (builtins.open / io.open and the os functions).  Bytes land in a
real scratch directory; which operation fails, is cut short, or is the last one
of the process is decided by the plan.

Faults are keyed by the number of the I/O step (a step = one raw read, write,
open, close-flush or directory operation below the simulated root).
"""
import builtins
import errno
import io
import os
import stat

CRASH = 86

_real = dict(open=io.open, replace=os.replace, rename=os.rename,
             remove=os.remove, unlink=os.unlink, mkdir=os.mkdir,
             rmdir=os.rmdir, fsync=os.fsync, listdir=os.listdir,
             scandir=os.scandir, truncate=os.truncate, osopen=os.open,
             oswrite=os.write)


class SimRaw(io.FileIO):
    """Raw file whose reads and writes are steps of the simulation."""

    def __init__(self, fs, file, mode, closefd=True, opener=None):
        io.FileIO.__init__(self, file, mode, closefd, opener)
        self._fs = fs

    def write(self, b):
        act = self._fs.step("write")
        if act:
            kind, arg = act
            mv = memoryview(b).cast("B")
            if kind == "crash":
                n = int(len(mv) * arg)
                if n:
                    io.FileIO.write(self, mv[:n])
                self._fs.crash()
            if kind == "short":
                n = max(1, int(len(mv) * arg)) if len(mv) else 0
                self._fs.log.fault("short_write")
                return io.FileIO.write(self, mv[:n])
            if kind in ("enospc", "eio"):
                n = int(len(mv) * arg)
                if n:
                    io.FileIO.write(self, mv[:n])
                self._fs.fail(kind)
            if kind == "interrupt":
                self._fs.interrupt()
        return io.FileIO.write(self, b)

    def readinto(self, b):
        act = self._fs.step("read")
        if act:
            kind, arg = act
            if kind == "crash":
                self._fs.crash()
            if kind in ("eio",):
                self._fs.fail(kind)
            if kind == "interrupt":
                self._fs.interrupt()
            if kind == "short":
                mv = memoryview(b).cast("B")
                n = max(1, int(len(mv) * arg))
                self._fs.log.fault("short_read")
                return io.FileIO.readinto(self, mv[:n])
        return io.FileIO.readinto(self, b)

    def readall(self):
        # through readinto, so that every read is a step
        out = bytearray()
        buf = bytearray(65536)
        while True:
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def close(self):
        if not self.closed:
            fs = self._fs
            act = fs.step("close")
            if act and act[0] == "crash":
                fs.crash()
        io.FileIO.close(self)


class SimFS(object):
    def __init__(self, root, log, faults=(), order=None):
        """faults: list of [step, kind, arg]; order: callable permuting
        directory listings."""
        self.root = os.path.realpath(root)
        self.log = log
        self.faults = {}
        self.nstep = 0
        self.base = 0
        self.set_faults(faults)
        self.order = order
        self.trace = []
        self.on_crash = lambda: os._exit(CRASH)
        self.installed = False
        self.jail = None         # removals outside of it are refused
        self.escaped = []
        self.only = None         # kinds of operation that count as steps
        self.removed = []

    # -- steps and faults --------------------------------------------------
    def set_faults(self, faults):
        self.base = self.nstep
        self.faults = {}
        for f in faults:
            self.faults.setdefault(int(f[0]), (f[1], f[2] if len(f) > 2
                                               else 0.5))

    def step(self, what, path=None):
        if self.only is not None and what not in self.only:
            return None
        k = self.nstep - self.base
        self.nstep += 1
        self.trace.append(what)
        act = self.faults.get(k)
        if act is None:
            return None
        kind = act[0]
        if kind == "reader":
            saved, self.faults = self.faults, {}
            try:
                self.reader()
            finally:
                self.faults = saved
            return None
        if kind == "short" and what not in ("write", "read"):
            return None
        if kind == "enospc" and what not in ("write", "open-w", "mkdir"):
            return None
        if kind == "eio" and what == "close":
            return None
        return act

    def crash(self):
        self.log.fault("crash")
        self.on_crash()

    def interrupt(self):
        self.log.fault("interrupt")
        raise KeyboardInterrupt("injected")

    def fail(self, kind):
        self.log.fault(kind)
        code = {"enospc": errno.ENOSPC, "eio": errno.EIO,
                "eacces": errno.EACCES, "enotempty": errno.ENOTEMPTY,
                "emfile": errno.EMFILE}[kind]
        raise OSError(code, os.strerror(code))

    def _act(self, what, path=None):
        act = self.step(what, path)
        if not act:
            return
        kind, arg = act
        if kind == "crash":
            self.crash()
        elif kind == "interrupt":
            self.interrupt()
        elif kind == "short":
            return
        else:
            self.fail(kind)

    def inside(self, path):
        if isinstance(path, int):
            try:
                path = os.readlink("/proc/self/fd/%d" % path)
            except OSError:
                return False
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        p = os.path.abspath(path)
        return (p == self.root or p.startswith(self.root + os.sep)
                or os.path.realpath(os.path.dirname(p) or ".").startswith(
                    self.root))

    # -- open ----------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return _real["open"](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        self._act("open-w" if writing else "open-r", file)
        rawmode = "".join(c for c in mode if c in "rwax+")
        raw = SimRaw(self, file, rawmode, closefd, opener)
        binary = "b" in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline,
                             line_buffering=buffering == 1)
        t.mode = mode
        return t

    # -- install -------------------------------------------------------------
    def __enter__(self):
        fs = self

        def wrap1(name):
            real = _real[name]

            def f(path, *a, **k):
                if fs.inside(path) and k.get("dir_fd") is None:
                    fs._act(name, path)
                elif k.get("dir_fd") is not None:
                    fs._act(name, path)
                if name in ("remove", "unlink", "rmdir"):
                    full = _full(path, k.get("dir_fd"))
                    fs.removed.append((name, full))
                    if fs.jail is not None:
                        fs._guard(full)
                return real(path, *a, **k)
            f.__name__ = name
            return f

        def wrap2(name):
            real = _real[name]

            def f(src, dst, *a, **k):
                if fs.inside(src) or fs.inside(dst):
                    fs._act(name, dst)
                if fs.jail is not None:
                    fs._guard(_full(src, None))
                    fs._guard(_full(dst, None))
                return real(src, dst, *a, **k)
            f.__name__ = name
            return f

        def listdir(path="."):
            res = _real["listdir"](path)
            if fs.inside(path):
                fs._act("listdir", path)
                res = fs._permute(res, path)
            return res

        def scandir(path="."):
            it = _real["scandir"](path)
            if not fs.inside(path):
                return it
            fs._act("scandir", path)
            with it:
                ents = list(it)
            ents.sort(key=lambda e: e.name)
            names = fs._permute([e.name for e in ents], path)
            byname = {e.name: e for e in ents}
            return _Scan([byname[n] for n in names])

        builtins.open = self.open
        io.open = self.open
        for n in ("remove", "unlink", "mkdir", "rmdir", "truncate"):
            setattr(os, n, wrap1(n))
        for n in ("replace", "rename"):
            setattr(os, n, wrap2(n))
        os.listdir = listdir
        os.scandir = scandir
        self.installed = True
        return self

    def _guard(self, full):
        """Refuses to reach anything outside of the jail."""
        real = os.path.join(os.path.realpath(os.path.dirname(full)),
                            os.path.basename(full))
        if not real.startswith(os.path.realpath(self.jail) + os.sep):
            self.escaped.append(full)
            raise OSError(errno.EPERM, "refused by the simulator", full)

    def _permute(self, names, path):
        names = sorted(names)
        if self.order is not None:
            if isinstance(path, int):
                path = os.readlink("/proc/self/fd/%d" % path)
            rel = os.path.relpath(os.path.realpath(os.fspath(path)),
                                  self.root)
            names = list(self.order(names, rel))
            self.log.probe("directory_enumerated_in_simulated_order")
        return names

    def __exit__(self, *exc):
        builtins.open = _real["open"]
        io.open = _real["open"]
        for n in ("remove", "unlink", "mkdir", "rmdir", "truncate",
                  "replace", "rename", "listdir", "scandir"):
            setattr(os, n, _real[n])
        self.installed = False
        return False


def _full(path, dir_fd):
    if dir_fd is None:
        return os.path.abspath(path)
    return os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd),
                        os.fspath(path))


class _Scan(object):
    def __init__(self, ents):
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- process lives -----------------------------------------------------------
def life(fn, log):
    """
    Runs fn(report, log, die) in a forked process (one life of the simulated
    process).  Returns (messages, crashed).  A crash is os._exit at the
    injected point: whatever Python buffered is lost, what was written stays.
    """
    import json
    import traceback
    from .core import Log
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        sub = Log(keep=True)

        def send(msg):
            data = (json.dumps(msg) + "\n").encode()
            while data:
                data = data[_real["oswrite"](w, data):]

        def flush():
            send(["LOG", sub.faults, sub.probes, sub.lines, sub.violations,
                  sorted(sub.sigs), sub.evals])

        def die():
            flush()
            os._exit(CRASH)
        try:
            os.close(r)
            fn(lambda *msg: send(msg), sub, die)
            flush()
        except BaseException:
            code = 3
            send(["HARNESS", traceback.format_exc()])
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    try:
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    except BaseException:
        import signal
        os.kill(pid, signal.SIGKILL)
        raise
    os.close(r)
    _, status = os.waitpid(pid, 0)
    out = []
    for x in data.decode().splitlines():
        m = json.loads(x)
        if m[0] == "HARNESS":
            raise RuntimeError("life failed: " + m[1])
        if m[0] == "LOG":
            for k, v in m[1].items():
                log.fault(k, v)
            for k, v in m[2].items():
                log.probe(k, v)
            for line in m[3]:
                log.ev(line)
            log.violations += [tuple(v) for v in m[4]]
            log.sigs.update(m[5])
            log.evals += m[6]
        else:
            out.append(m)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, CRASH):
        raise RuntimeError("life ended with %s" % code)
    return out, code == CRASH


def scratch():
    import tempfile
    return tempfile.mkdtemp(prefix="run-", dir=os.environ.get(
        "VERIF_SCRATCH"))
