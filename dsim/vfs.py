"""Simulated file system seam.

Every file operation the code under test makes through Python goes through
this layer.  Durable state is a real scratch directory (`root`); `/tmp` and any
path outside `root` that gets written are redirected below it, so a simulated
run can never touch a real path.  Each mutating operation is numbered, logged
and can be hit by a planned fault: ENOSPC, EIO, a torn write, or the death of
the simulated process, after which nothing that process does becomes durable.
"""
import builtins
import errno
import io
import os
import shutil
import stat as _stat
import tempfile


class SimCrash(BaseException):
    """The simulated process has been killed (not an Exception on purpose)."""


class HarnessError(BaseException):
    """The simulator itself is broken: never reported as a violation."""


_REAL = {}
_OS_ONE = ["stat", "lstat", "remove", "unlink", "mkdir", "rmdir", "listdir",
           "scandir", "access", "chmod", "utime", "truncate", "readlink"]
_OS_TWO = ["replace", "rename", "link", "symlink"]
_WRITE_ONE = {"remove", "unlink", "mkdir", "rmdir", "chmod", "utime", "truncate"}


def _capture_real():
    if _REAL:
        return
    for name in _OS_ONE + _OS_TWO + ["open", "write", "read", "close", "fsync",
                                     "getpid", "urandom", "chdir", "fdopen"]:
        _REAL[name] = getattr(os, name)
    _REAL["builtin_open"] = builtins.open
    _REAL["FileIO"] = io.FileIO
    _REAL["tmp_unlink"] = getattr(tempfile, "_os", os).unlink


_capture_real()


class SimRaw(io.RawIOBase):
    """Raw file opened for writing by a simulated process."""

    def __init__(self, fs, fd, path, mode, proc):
        self._fs, self._fd, self._path, self._m, self._proc = fs, fd, path, mode, proc
        self.name = path
        self.mode = mode
        self._lost = False

    def readable(self):
        return "r" in self._m or "+" in self._m

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        data = _REAL["read"](self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if not self._proc.dead:
            os.ftruncate(self._fd, size)
        return size

    def write(self, b):
        b = bytes(b)
        if self._proc.dead or self._lost:
            return len(b)       # a dead process writes nothing; keep unwinding quiet
        n = self._fs.write_op(self, b)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._fd >= 0:
                    _REAL["close"](self._fd)
                    self._fs.fds.pop(self._fd, None)
                    self._fd = -1
                if not self._proc.dead:
                    self._fs.note("close", self._path)
                    self._fs.stamp(self._path)


class SimFS:
    def __init__(self, root, world):
        self.root = os.path.realpath(root)
        self.world = world
        self.overlay = os.path.join(self.root, "overlay")
        os.makedirs(os.path.join(self.overlay, "tmp"), exist_ok=True)
        self.nops = 0
        self.bykind = {}
        self.fds = {}          # fd -> (path, flags, proc)
        self.alias = {}
        self.installed = False

    # ---- paths -------------------------------------------------------
    def m(self, path, write=False):
        if isinstance(path, int):
            return path
        p = os.fspath(path)
        isb = isinstance(p, bytes)
        if isb:
            p = os.fsdecode(p)
        ap = p if p.startswith("/") else os.path.join(os.getcwd(), p)
        ap = os.path.normpath(ap)
        if ap == self.root or ap.startswith(self.root + "/"):
            out = p
        elif ap.startswith("/dev/") or ap.startswith("/proc/"):
            out = p
        else:
            ov = self.overlay + ap
            if ap == "/tmp" or ap.startswith("/tmp/"):
                out = ov
            elif write:
                _REAL_makedirs(os.path.dirname(ov))
                out = ov
            else:
                out = ov if _lexists(ov) else p
        return os.fsencode(out) if isb else out

    def inside(self, path):
        if isinstance(path, int):
            return False
        p = os.fsdecode(os.fspath(path))
        ap = p if p.startswith("/") else os.path.join(os.getcwd(), p)
        ap = os.path.normpath(ap)
        return ap.startswith(self.root + "/") or ap == self.root

    def counted(self, path):
        """Reads of this path are simulated I/O (faults apply)."""
        if self.inside(path):
            return True
        pre = self.world.fault_prefixes
        return bool(pre) and not isinstance(path, int) and os.fsdecode(os.fspath(path)).startswith(pre)

    def rel(self, path):
        p = os.fsdecode(os.fspath(path))
        ap = os.path.normpath(p if p.startswith("/") else os.path.join(os.getcwd(), p))
        if ap not in self.alias:
            self.alias[ap] = len(self.alias)
        return self.alias[ap]

    # ---- ops and faults ----------------------------------------------
    def stamp(self, f):
        """File dates follow the virtual clock."""
        t = self.world.now
        try:
            _REAL["utime"](f, (t, t))
        except OSError:
            pass

    def note(self, kind, path):
        self.world.log("fs", kind, self.rel(path))

    def op(self, kind, path):
        """Account one operation; returns the fault to apply (or None)."""
        w = self.world
        if w.in_harness():
            return None
        proc = w.current_proc()
        if proc.dead:
            raise SimCrash("dead process")
        w.yield_point("fs")
        self.nops += 1
        self.bykind[kind] = self.bykind.get(kind, 0) + 1
        w.tick(0.002)
        f = w.fault_for(kind, self.nops, self.bykind[kind], proc, path)
        self.world.log("fs", kind, self.rel(path), f["kind"] if f else "")
        if f is None:
            return None
        k = f["kind"]
        if k == "crash" or (k == "torn" and kind != "write"):
            w.kill_current(k, kind)
        return f

    def _raise(self, f, path):
        k = f["kind"]
        if k in ("enospc", "eio", "emfile", "eacces"):
            no = {"enospc": errno.ENOSPC, "eio": errno.EIO,
                  "emfile": errno.EMFILE, "eacces": errno.EACCES}[k]
            raise OSError(no, os.strerror(no), str(path))

    def write_op(self, raw, b):
        f = self.op("write", raw._path)
        if f is None:
            self._full_write(raw._fd, b)
            self.stamp(raw._fd)
            return len(b)
        k = f["kind"]
        cut = int(len(b) * f.get("frac", 0.5))
        cut = min(max(cut, 0), max(len(b) - 1, 0))
        if k == "torn":
            self._full_write(raw._fd, b[:cut])
            self.world.kill_current(k, "write")
        if k == "short":
            cut = max(cut, 1)
            self._full_write(raw._fd, b[:cut])
            return cut
        if k in ("enospc", "eio") and f.get("once"):
            self._raise(f, raw._path)       # the buffered data stay, a later flush can succeed
        if k in ("enospc", "eio"):
            self._full_write(raw._fd, b[:cut])
            raw._lost = True
            self._raise(f, raw._path)
        self._full_write(raw._fd, b)
        return len(b)

    @staticmethod
    def _full_write(fd, b):
        while b:
            n = _REAL["write"](fd, b)
            b = b[n:]

    # ---- the patched entry points ------------------------------------
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None):
        ropen = _REAL["builtin_open"]
        if self.world.in_harness():
            return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        if isinstance(file, int):
            info = self.fds.get(file)
            if info is None or not writing:
                return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return self._wrap(file, info[0], mode, buffering, encoding, errors, newline)
        path = self.m(file, write=writing)
        if not (self.inside(path) if writing else self.counted(path)):
            return ropen(path, mode, buffering, encoding, errors, newline, closefd, opener)
        if not writing:
            if opener is None:
                f = self.op("open_r", path)
                if f:
                    self._raise(f, path)
            return ropen(path, mode, buffering, encoding, errors, newline, closefd, opener)
        proc = self.world.current_proc()
        if opener is not None:
            # tempfile.NamedTemporaryFile and friends: the opener calls os.open
            fd = opener(file, self._flags(mode))
            if fd in self.fds:
                return self._wrap(fd, self.fds[fd][0], mode, buffering, encoding, errors, newline)
            return ropen(fd, mode, buffering, encoding, errors, newline)
        f = self.op("open_w", path)
        if f:
            self._raise(f, path)
        fd = _REAL["open"](path, self._flags(mode), 0o666)
        self.stamp(fd)
        self.fds[fd] = (path, self._flags(mode), proc)
        return self._wrap(fd, path, mode, buffering, encoding, errors, newline)

    @staticmethod
    def _flags(mode):
        fl = os.O_CLOEXEC
        plus = "+" in mode
        if "r" in mode:
            fl |= os.O_RDWR
        else:
            fl |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT
            if "w" in mode:
                fl |= os.O_TRUNC
            elif "x" in mode:
                fl |= os.O_EXCL
            else:
                fl |= os.O_APPEND
        return fl

    def _wrap(self, fd, path, mode, buffering, encoding, errors, newline):
        proc = self.world.current_proc()
        raw = SimRaw(self, fd, path, mode, proc)
        if "b" in mode and buffering == 0:
            return raw
        size = self.world.bufsize
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                line_buffering=(buffering == 1))
        text.mode = mode
        return text

    def sim_os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if self.world.in_harness() or dir_fd is not None:
            return _REAL["open"](path, flags, mode, dir_fd=dir_fd)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
        p = self.m(path, write=writing)
        if not self.inside(p):
            return _REAL["open"](p, flags, mode)
        f = self.op("open_w" if writing else "open_r", p)
        if f:
            self._raise(f, p)
        fd = _REAL["open"](p, flags, mode)
        if writing:
            self.stamp(fd)
            self.fds[fd] = (p, flags, self.world.current_proc())
        return fd

    def sim_os_write(self, fd, data):
        info = self.fds.get(fd)
        if info is None or self.world.in_harness():
            return _REAL["write"](fd, data)

        class _R:
            pass
        r = _R()
        r._fd, r._path, r._lost = fd, info[0], False
        if info[2].dead:
            return len(data)
        return self.write_op(r, bytes(data))

    def sim_os_close(self, fd):
        self.fds.pop(fd, None)
        return _REAL["close"](fd)

    def sim_fsync(self, fd):
        if not self.world.in_harness() and fd in self.fds:
            f = self.op("fsync", self.fds[fd][0])
            if f:
                self._raise(f, self.fds[fd][0])
        return None

    def _one(self, name):
        real = _REAL[name]
        write = name in _WRITE_ONE

        def fn(path=".", *a, **k):
            if self.world.in_harness() or k.get("dir_fd") is not None or isinstance(path, int):
                return real(path, *a, **k)
            p = self.m(path, write=write and name == "mkdir")
            if write and self.inside(p):
                proc = self.world.current_proc()
                if proc.dead:
                    raise SimCrash("dead process")
                f = self.op("unlink" if name in ("remove", "unlink") else name, p)
                if f:
                    self._raise(f, p)
            elif write:
                raise PermissionError(errno.EACCES, "outside the simulated file system", p)
            return real(p, *a, **k)
        fn.__name__ = name
        return fn

    def _two(self, name):
        real = _REAL[name]

        def fn(src, dst, *a, **k):
            if self.world.in_harness():
                return real(src, dst, *a, **k)
            s, d = self.m(src), self.m(dst, write=True)
            if name in ("replace", "rename") and not self.inside(s):
                raise PermissionError(errno.EACCES, "outside the simulated file system", s)
            f = self.op("rename", d)
            if f:
                self._raise(f, d)
            return real(s, d, *a, **k)
        fn.__name__ = name
        return fn

    def install(self):
        fs = self

        class SimFileIO(_REAL["FileIO"]):
            def __init__(self, file, mode="r", closefd=True, opener=None):
                if not fs.world.in_harness() and not isinstance(file, int) and fs.installed:
                    writing = any(c in mode for c in "wax+")
                    p = fs.m(file, write=writing)
                    if fs.inside(p) if writing else fs.counted(p):
                        f = fs.op("open_w" if writing else "open_r", p)
                        if f:
                            fs._raise(f, p)
                    file = p
                super().__init__(file, mode, closefd, opener)
        builtins.open = self.sim_open
        io.open = self.sim_open
        io.FileIO = SimFileIO
        os.open = self.sim_os_open
        os.write = self.sim_os_write
        os.close = self.sim_os_close
        os.fsync = self.sim_fsync
        for name in _OS_ONE:
            setattr(os, name, self._one(name))
        for name in _OS_TWO:
            setattr(os, name, self._two(name))
        # shutil keeps some function-support sets keyed by the originals
        self._sd = (shutil._use_fd_functions,)
        shutil._use_fd_functions = False
        tempfile.tempdir = "/tmp"
        self.installed = True

    def uninstall(self):
        if not self.installed:
            return
        builtins.open = _REAL["builtin_open"]
        io.open = _REAL["builtin_open"]
        io.FileIO = _REAL["FileIO"]
        for name in _OS_ONE + _OS_TWO + ["open", "write", "close", "fsync"]:
            setattr(os, name, _REAL[name])
        shutil._use_fd_functions = self._sd[0]
        self.installed = False


def _lexists(p):
    try:
        _REAL["lstat"](p)
        return True
    except OSError:
        return False


def _REAL_makedirs(p):
    if p and not _lexists(p):
        _REAL_makedirs(os.path.dirname(p))
        try:
            _REAL["mkdir"](p)
        except FileExistsError:
            pass
