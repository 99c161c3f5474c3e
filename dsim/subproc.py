"""External programs: every subprocess goes to a simulated program."""
import os
import shlex
import shutil
import subprocess
import io

from .vfs import SimCrash, HarnessError


class ProgramResult:
    def __init__(self, code, out=""):
        self.code, self.out = code, out


def install(world):
    w = world
    RealPopen = subprocess.Popen

    class SimPopen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                     stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                     env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                     restore_signals=True, start_new_session=False, pass_fds=(), *,
                     user=None, group=None, extra_groups=None, encoding=None, errors=None,
                     text=None, umask=-1, pipesize=-1, process_group=None):
            self.args = args
            self.returncode = None
            self.pid = 5000
            self._text = bool(text or universal_newlines or encoding or errors)
            self._want_out = stdout == subprocess.PIPE
            self._want_err = stderr == subprocess.PIPE
            self._merge = stderr == subprocess.STDOUT
            self.stdin = None
            self.stdout = self.stderr = None
            if isinstance(args, (str, bytes)):
                line = os.fsdecode(args)
                argv = shlex.split(line) if shell else [line]
            else:
                argv = [os.fsdecode(a) for a in args]
                if shell:
                    argv = shlex.split(argv[0])
            self._argv = argv
            self._outfile = stdout if hasattr(stdout, "write") else None
            self._errfile = stderr if hasattr(stderr, "write") else None
            name = os.path.basename(argv[0]) if argv else ""
            self._prog = w.programs.get(name)
            if self._prog is None:
                w.log("exec-missing", name)
                if shell:
                    self._missing = True
                    return
                raise FileNotFoundError(2, "No such file or directory", argv[0] if argv else "")
            self._missing = False
            self._done = False
            self._out = ""
            w.log("exec", name, len(argv))
            w.yield_point("exec")

        def _run(self):
            if self.returncode is not None:
                return
            if self._missing:
                self._out, self.returncode = "/bin/sh: 1: %s: not found\n" % self._argv[0], 127
                return
            w.tick(0.5)
            w.yield_point("exec")
            r = self._prog(w, self._argv)
            w.yield_point("exec")
            w.log("exit", os.path.basename(self._argv[0]), r.code)
            self._out, self.returncode = r.out, r.code
            if self._outfile is not None:
                self._outfile.write(r.out)

        def _conv(self, s):
            return s if self._text else s.encode()

        def communicate(self, input=None, timeout=None):
            self._run()
            out = self._conv(self._out) if self._want_out else None
            err = self._conv("") if self._want_err else None
            return out, err

        def wait(self, timeout=None):
            self._run()
            return self.returncode

        def poll(self):
            self._run()
            return self.returncode

        def kill(self):
            pass
        terminate = kill

        def send_signal(self, s):
            pass

        def __enter__(self):
            if self._want_out and self.stdout is None:
                self._run()
                self.stdout = io.StringIO(self._out) if self._text else io.BytesIO(self._out.encode())
            return self

        def __exit__(self, *a):
            self.wait()

    world._patch(subprocess, "Popen", SimPopen)

    def system(cmd):
        p = SimPopen(cmd, shell=True)
        p.wait()
        return (p.returncode & 0xFF) << 8
    world._patch(os, "system", system)

    real_which = shutil.which

    def which(cmd, mode=os.F_OK | os.X_OK, path=None):
        if w.in_harness():
            return real_which(cmd, mode, path)
        if os.path.basename(cmd) in w.programs:
            return "/usr/local/bin/" + os.path.basename(cmd)
        return None
    world._patch(shutil, "which", which)


def install_flock(world):
    """Advisory file locks between simulated processes block cooperatively."""
    try:
        import fcntl
    except ImportError:
        return
    w = world
    real = fcntl.flock

    def flock(fd, op):
        if w.in_harness() or w.sched is None or op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
            return real(fd, op)

        def got():
            try:
                real(fd, op | fcntl.LOCK_NB)
                return True
            except OSError:
                return False
        w.yield_point("lock")
        if not got():
            w.sched.block_until(got)
    w._patch(fcntl, "flock", flock)
    w._patch(fcntl, "lockf", lambda fd, op, *a: flock(fd, op))


def install_fits(world):
    """fitsio opens files in C: account the open, map the path, allow a fault."""
    import fitsio
    import fitsio.fitslib as fl
    w = world
    real = fl.FITS.__init__

    def init(self, filename, mode="r", *a, **k):
        if not w.in_harness() and isinstance(filename, (str, os.PathLike)):
            writing = "w" in str(mode)
            p = w.fs.m(os.fspath(filename).lstrip("!"), write=writing)
            if w.fs.inside(p):
                f = w.fs.op("open_w" if writing else "open_r", p)
                if f:
                    w.fs._raise(f, p)
            filename = p
        return real(self, filename, mode, *a, **k)
    w._patch(fl.FITS, "__init__", init)


def install_astropy(world):
    """astropy's C table writer opens files itself: give it a seam file instead."""
    from astropy.io.ascii import fastbasic
    w = world
    real = fastbasic.FastBasic._write

    def _write(self, table, output, *a, **k):
        if w.in_harness() or not isinstance(output, (str, bytes, os.PathLike)):
            return real(self, table, output, *a, **k)
        with open(output, "w", newline="") as f:
            return real(self, table, f, *a, **k)
    w._patch(fastbasic.FastBasic, "_write", _write)
