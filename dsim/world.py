"""One simulated world: one seed, one execution.

Owns the virtual clock, the simulated processes (each with its own freshly
loaded set of desimeter modules), the thread scheduler, the file system, the
external programs, the process pools and the fault plan.
"""
import contextlib
import datetime as _dt
import gc
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import _thread
import threading
import time as _time
import types

import numpy as np

from . import vfs
from .vfs import SimCrash, HarnessError, SimFS

REPO = os.environ.get("DSIM_REPO", "/repo")
PYDIR = os.path.join(REPO, "py")
BINDIR = os.path.join(REPO, "bin")

_code_cache = {}


def _compiled(path):
    real_open = vfs._REAL["builtin_open"]
    if path not in _code_cache:
        with real_open(path, "rb") as f:
            src = f.read()
        _code_cache[path] = compile(src, path, "exec", dont_inherit=True)
    return _code_cache[path]


class _Loader(importlib.abc.Loader):
    """Loads desimeter sources from a per-harness code cache."""

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_compiled(self.path), module.__dict__)

    def get_filename(self, fullname):
        return self.path

    def get_resource_reader(self, fullname):
        return importlib.machinery.SourceFileLoader(
            fullname, self.path).get_resource_reader(fullname)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "desimeter" and not fullname.startswith("desimeter."):
            return None
        base = os.path.join(PYDIR, *fullname.split("."))
        isdir = False
        try:
            import stat
            isdir = stat.S_ISDIR(vfs._REAL["stat"](base).st_mode)
        except OSError:
            pass
        if isdir:
            init = os.path.join(base, "__init__.py")
            if vfs._lexists(init):
                spec = importlib.util.spec_from_file_location(
                    fullname, init, loader=_Loader(init),
                    submodule_search_locations=[base])
                return spec
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        src = base + ".py"
        if vfs._lexists(src):
            return importlib.util.spec_from_file_location(fullname, src, loader=_Loader(src))
        return None


def install_finder():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    # import the third-party modules once, in the parent of every simulated run
    for n in all_module_names() + ["matplotlib.pyplot", "astropy.io.fits", "astropy.io.ascii.ui",
                                   "astropy.coordinates", "astropy.table", "scipy.optimize"]:
        try:
            importlib.import_module(n)
        except BaseException:
            pass
    for k in [k for k in sys.modules if k == "desimeter" or k.startswith("desimeter.")]:
        del sys.modules[k]
    ld = logging.Logger.manager.loggerDict
    for k in [k for k in ld if k.split(".")[0] == "desimeter"]:
        del ld[k]


def all_module_names():
    names = []
    for d, dirs, files in os.walk(os.path.join(PYDIR, "desimeter")):
        dirs[:] = sorted(x for x in dirs if x not in ("test", "data", "__pycache__", "raytrace"))
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), PYDIR)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                names.append(rel)
    return names


class _NameSeq:
    """Deterministic temporary-file names."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789", k=8))


class SimProcess:
    """A simulated operating-system process running desimeter."""

    def __init__(self, world, name):
        self.world = world
        self.name = name
        self.pid = 1000 + len(world.procs)
        self.dead = False
        self.exit_reason = None
        self.modules = {}
        self.loggers = {}
        self.names = _NameSeq("%s/%d" % (world.seed, self.pid))
        self.nprng = np.random.RandomState(
            random.Random("np/%s/%d" % (world.np_seed, self.pid)).getrandbits(32)).get_state()
        self.pyrng = random.Random("py/%s/%d" % (world.np_seed, self.pid)).getstate()
        self.main_module = None
        self.argv = [name]
        self.cwd = world.cwd
        self.environ = dict.fromkeys(World._envkeys)
        self.environ["PATH"] = os.environ.get("PATH")
        self.environ.update(world.default_env)
        world.procs.append(self)

    def mod(self, name):
        """Import (in this process) and return a desimeter module."""
        with self.world.running(self):
            return importlib.import_module(name)


_PREFIX = ("desimeter",)


def _is_sim_mod(k):
    return k == "desimeter" or k.startswith("desimeter.")


class World:
    def __init__(self, root, seed, np_seed=0, faults=(), sched=None, bufsize=8192,
                 t0=1600000000.0, keep_log=0):
        self.root = os.path.realpath(root)
        self.seed = seed
        self.np_seed = np_seed
        self.faults = [dict(f) for f in faults]
        self.bufsize = bufsize
        self.cwd = os.path.join(self.root, "work")
        os.makedirs(self.cwd, exist_ok=True)
        self.now = t0
        self.t0 = t0
        self._h = hashlib.sha256()
        self.nlog = 0
        self.tail = []
        self.keep_log = keep_log
        self.fired = {}
        self.probes = {}
        self.states = set()
        self.procs = []
        self._cur = None
        self.fs = SimFS(self.root, self)
        self.sched = None
        self.sched_plan = sched or {}
        self.programs = {}
        self.stdout = io.StringIO()
        self.installed = False
        self.default_env = {}
        self.fault_prefixes = ()    # read-only trees outside root whose reads can fail
        self._saved = {}
        self.sysrng = random.Random("sys/%s" % seed)

    # ---- log, probes, clock -----------------------------------------
    def log(self, *items):
        s = repr(items)
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.nlog += 1
        if self.keep_log:
            self.tail.append(s)
            if len(self.tail) > self.keep_log:
                del self.tail[:len(self.tail) // 2]

    def digest(self):
        return self._h.hexdigest()

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def tick(self, dt):
        self.now += dt

    # ---- processes ---------------------------------------------------
    def in_harness(self):
        return self._cur is None or (self.sched is not None and self.sched.foreign_thread())

    def current_proc(self):
        return self._cur

    def new_process(self, name="proc", preload=True):
        p = SimProcess(self, name)
        if preload:
            with self.running(p):
                for n in preload_names():
                    try:
                        importlib.import_module(n)
                    except Exception:
                        pass
        return p

    def _switch(self, proc):
        """Make `proc` the running process (swap its module objects in)."""
        if proc is self._cur:
            return
        self._swap_out()
        self._swap_in(proc)

    def _swap_out(self):
        old = self._cur
        if old is not None:
            for k in [k for k in sys.modules if _is_sim_mod(k)]:
                old.modules[k] = sys.modules.pop(k)
            ld = logging.Logger.manager.loggerDict
            for k in [k for k in ld if k.split(".")[0] == "desimeter"]:
                old.loggers[k] = ld.pop(k)
            old.nprng = np.random.get_state()
            old.pyrng = random.getstate()
            old.main_module_saved = sys.modules.get("__main__")
            old.argv = sys.argv
            old.environ = {k: os.environ.get(k) for k in self._envkeys}
        self._cur = None

    def _swap_in(self, proc):
        self._cur = proc
        if proc is not None:
            sys.modules.update(proc.modules)
            proc.modules = {}
            logging.Logger.manager.loggerDict.update(proc.loggers)
            proc.loggers = {}
            np.random.set_state(proc.nprng)
            random.setstate(proc.pyrng)
            sys.argv = proc.argv
            if proc.main_module is not None:
                sys.modules["__main__"] = proc.main_module
            else:
                sys.modules["__main__"] = self._real_main
            tempfile._name_sequence = proc.names
            for k, v in proc.environ.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v

    _envkeys = ("DESI_LOGLEVEL", "DESIMETER_DATA", "PATH", "TMPDIR")
    _real_main = sys.modules.get("__main__")

    @contextlib.contextmanager
    def running(self, proc):
        prev = self._cur
        self._switch(proc)
        try:
            yield proc
        finally:
            self._switch(prev)

    def kill_current(self, kind, where):
        p = self._cur
        p.dead = True
        p.exit_reason = kind
        self.log("kill", p.pid, kind, where)
        self.probe("killed")
        raise SimCrash("%s during %s" % (kind, where))

    def call(self, proc, fn, *a, **k):
        """Run fn in proc; returns ('ok', value) | ('exc', e) | ('exit', code) | ('crash', e)."""
        with self.running(proc):
            if proc.dead:
                raise HarnessError("call in a dead process")
            try:
                return ("ok", fn(*a, **k))
            except SimCrash as e:
                return ("crash", e)
            except HarnessError:
                raise
            except SystemExit as e:
                return ("exit", e.code)
            except KeyboardInterrupt:
                raise
            except BaseException as e:
                return ("exc", e)

    def run_script(self, proc, script, argv):
        """Execute /repo/bin/<script> in proc with argv; returns like call()."""
        path = script if script.startswith("/") else os.path.join(BINDIR, script)

        def body():
            m = types.ModuleType("__main__")
            m.__file__ = path
            proc.main_module = m
            sys.modules["__main__"] = m
            sys.argv = proc.argv = [path] + list(argv)
            exec(_compiled(path), m.__dict__)
            return 0
        r = self.call(proc, body)
        return r

    # ---- faults ------------------------------------------------------
    def fault_for(self, kind, n, nk, proc, path):
        for f in self.faults:
            if f.get("done"):
                continue
            if f.get("where", "fs") != "fs":
                continue
            if f.get("proc") is not None and f["proc"] != proc.name:
                continue
            ops = f.get("ops")
            if ops is not None and kind not in ops:
                continue
            if f["kind"] in ("short",) and kind != "write":
                continue
            if f["kind"] == "enospc" and kind not in ("write", "open_w", "mkdir", "fsync", "rename"):
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] - 1 == f["at"]:
                f["done"] = not f.get("sticky", False)
                if f.get("sticky"):
                    f["at"] += 1
                    f["left"] = f.get("left", f["sticky"]) - 1
                    if f["left"] <= 0:
                        f["done"] = True
                f.setdefault("hits", []).append(path)
                self.count_fault(f["kind"])
                return f
        return None

    def count_fault(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def clear_faults(self):
        for f in self.faults:
            f["done"] = True

    # ---- scheduling --------------------------------------------------
    def yield_point(self, kind):
        if self.sched is not None:
            self.sched.yield_point(kind)

    # ---- install / uninstall ----------------------------------------
    def install(self, capture=True):
        if self.installed:
            return
        s = self._saved
        gc.disable()
        s["cwd"] = os.getcwd()
        s["env"] = dict(os.environ)
        s["stdout"], s["stderr"] = sys.stdout, sys.stderr
        s["tempdir"], s["nameseq"] = tempfile.tempdir, tempfile._name_sequence
        s["main"] = sys.modules.get("__main__")
        s["argv"] = sys.argv
        World._real_main = s["main"]
        s["np"] = np.random.get_state()
        os.chdir(self.cwd)
        if capture:
            sys.stdout = self.stdout
            sys.stderr = self.stdout
        self._patch_time()
        self._patch_proc()
        self.fs.install()
        self.installed = True

    def uninstall(self):
        if not self.installed:
            return
        self._switch(None)
        s = self._saved
        self.fs.uninstall()
        self._unpatch()
        os.chdir(s["cwd"])
        os.environ.clear()
        os.environ.update(s["env"])
        sys.stdout, sys.stderr = s["stdout"], s["stderr"]
        tempfile.tempdir, tempfile._name_sequence = s["tempdir"], s["nameseq"]
        sys.modules["__main__"] = s["main"]
        sys.argv = s["argv"]
        np.random.set_state(s["np"])
        self.installed = False

    def _patch(self, obj, name, val):
        self._patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    _patches = ()

    def _unpatch(self):
        for obj, name, val in reversed(self._patches):
            setattr(obj, name, val)
        self._patches = []

    def _patch_time(self):
        self._patches = []
        w = self

        def now():
            w.tick(1e-4)
            return w.now
        self._patch(_time, "time", now)
        self._patch(_time, "monotonic", now)
        self._patch(_time, "perf_counter", now)
        self._patch(_time, "time_ns", lambda: int(now() * 1e9))
        gmtime, localtime, strftime = _time.gmtime, _time.localtime, _time.strftime
        self._patch(_time, "gmtime", lambda t=None: gmtime(now() if t is None else t))
        self._patch(_time, "localtime", lambda t=None: localtime(now() if t is None else t))
        self._patch(_time, "strftime", lambda f, t=None: strftime(f, localtime(now()) if t is None else t))

        def sleep(dt):
            w.tick(max(0.0, dt))
            w.log("sleep", round(dt, 6))
            w.yield_point("sleep")
        self._patch(_time, "sleep", sleep)
        import astropy.time as at
        from astropy.time import Time

        def tnow():
            return Time(_dt.datetime.fromtimestamp(now(), _dt.timezone.utc).replace(tzinfo=None),
                        scale="utc")
        self._patch(Time, "now", staticmethod(tnow))

    def _patch_proc(self):
        w = self

        def getpid():
            return w._cur.pid if w._cur is not None else vfs._REAL["getpid"]()
        self._patch(os, "getpid", getpid)

        def urandom(n):
            if w._cur is None:
                return vfs._REAL["urandom"](n)
            return bytes(w.sysrng.getrandbits(8) for _ in range(n))
        self._patch(os, "urandom", urandom)
        from . import subproc, pool
        subproc.install(self)
        subproc.install_flock(self)
        subproc.install_fits(self)
        subproc.install_astropy(self)
        pool.install(self)

    # ---- helpers for harness code -----------------------------------
    def use_data(self, datadir, inside=True):
        """Give every process started from now on this DESIMETER_DATA."""
        if inside:
            dst = os.path.join(self.root, "data")
            if not os.path.isdir(dst):
                shutil.copytree(datadir, dst)
            datadir = dst
        self.default_env["DESIMETER_DATA"] = datadir
        return datadir

    def path(self, *parts):
        p = os.path.join(self.root, *parts)
        return p

    def durable(self, path):
        """Content of a file as the next process would see it (bytes or None)."""
        p = self.fs.m(path)
        try:
            with vfs._REAL["builtin_open"](p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def put(self, path, data, mtime=None):
        if isinstance(data, str):
            data = data.encode()
        p = self.fs.m(path, write=True)
        vfs._REAL_makedirs(os.path.dirname(p))
        with vfs._REAL["builtin_open"](p, "wb") as f:
            f.write(data)
        t = self.now if mtime is None else mtime
        vfs._REAL["utime"](p, (t, t))
        return path


_preload = None


def preload_names():
    global _preload
    if _preload is None:
        _preload = [n for n in all_module_names()
                    if n.split(".")[-1] not in ("plotter",)]
    return _preload
