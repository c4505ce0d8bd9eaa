"""The seam: everything nondeterministic a simulated process can touch goes through here.

`install()` patches, once, in the zygote (before the repository is imported): clocks, sleeping,
process creation, file-system mutation and listing, HDF5 structure writes, temp names.  With no
simulated process active (`P is None`) every patched entry point is a plain pass-through.
In a simulated process, `P` is a client of the kernel (kernel.py): each operation is one RPC and
the kernel decides - which process goes on, how far the clock moves, and whether the operation
succeeds, fails, or is the last thing the process ever does.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import pickle
import random
import struct
import sys
import tempfile
import time
import timeit

P = None            # the active simulated process client, or None

_real = {}
CRASH_STATUS = 77


class Containment(BaseException):
    """The code under test tried to change something outside the scratch directory."""


class Client:
    """Child-side end of one simulated process."""

    def __init__(self, sock_fd, label, root, overlay, now, mono, seed):
        self.fd = sock_fd
        self.label = label
        self.root = root
        self.overlay = overlay
        self.now = now
        self.mono = mono
        self.reads = 0
        self.inside = 0
        self.lrng = random.Random(seed)

    # -- wire -------------------------------------------------------------------------------
    def call(self, *req):
        b = pickle.dumps(req, protocol=4)
        _write_all(self.fd, struct.pack("<I", len(b)) + b)
        n = struct.unpack("<I", _read_all(self.fd, 4))[0]
        rep = pickle.loads(_read_all(self.fd, n))
        self.now, self.mono = rep[0], rep[1]
        self.reads = 0
        return rep[2]

    def clock(self):
        self.reads += 1
        if self.reads > 2000:            # a busy wait on the clock: let simulated time pass
            self.call("sleep", 0.05)
        return self.now, self.mono

    # -- decisions --------------------------------------------------------------------------
    def op(self, kind, path, path2=None):
        """Announce a file-system operation; returns the action to take ('' = go ahead)."""
        if self.inside:
            return ""
        act = self.call("op", kind, path, path2)
        if not act:
            return ""
        if act == "crash":
            die()
        if act in ("enospc", "eio", "eacces"):
            raise OSError(getattr(errno, act.upper()), os.strerror(getattr(errno, act.upper())), path)
        return act                        # 'torn' / 'short': the caller implements it


def note(*fields):
    """Record something in the run's history (from inside a simulated process)."""
    P.call("note", *fields)


def die():
    """Simulated sudden death: no flushing, no atexit, no cleanup."""
    _real["os._exit"](CRASH_STATUS)


def _write_all(fd, b):
    while b:
        n = _real["os.write"](fd, b)
        b = b[n:]


def _read_all(fd, n):
    out = b""
    while len(out) < n:
        c = _real["os.read"](fd, n - len(out))
        if not c:
            _real["os._exit"](78)         # the kernel is gone
        out += c
    return out


def _abspath(path, dir_fd=None):
    if isinstance(path, int):
        return None
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not os.path.isabs(p):
        base = os.getcwd() if dir_fd is None else os.readlink(f"/proc/self/fd/{dir_fd}")
        p = os.path.join(base, p)
    return os.path.normpath(p)


def _real_parent(p):
    """Resolve symlinks in the parent, keep the last component (the entry that is operated on)."""
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def in_scratch(p, follow=True):
    q = os.path.realpath(p) if follow else _real_parent(p)
    return q == P.root or q.startswith(P.root + os.sep)


SAFE = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")


def guard(p, what, follow=True):
    if p in SAFE:
        return False
    if not in_scratch(p, follow):
        P.inside += 1
        try:
            P.call("containment", what, p)
        finally:
            P.inside -= 1
        raise PermissionError(errno.EPERM, "simulator: outside the scratch directory", p)
    return True


# ------------------------------------------------------------------------------------ clocks
class _DTMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _dt_real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _dt_real)


_dt_real = _dt.datetime


class SimDateTime(_dt_real, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        if P is None:
            return _dt_real.now(tz)
        return _dt_real.fromtimestamp(P.clock()[0], tz)

    @classmethod
    def utcnow(cls):
        if P is None:
            return _dt_real.utcnow()
        return _dt_real.fromtimestamp(P.clock()[0], _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _DateMeta(type(_dt.date)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _date_real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _date_real)


_date_real = _dt.date


class SimDate(_date_real, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        if P is None:
            return _date_real.today()
        return _dt_real.fromtimestamp(P.clock()[0]).date()


def _patch_clocks():
    r_time, r_sleep = time.time, time.sleep
    r_perf, r_mono = time.perf_counter, time.monotonic
    _real.update({"time.time": r_time, "time.sleep": r_sleep, "time.monotonic": r_mono})
    r_localtime, r_gmtime, r_strftime, r_ctime = time.localtime, time.gmtime, time.strftime, time.ctime
    time.time = lambda: r_time() if P is None else P.clock()[0]
    time.time_ns = lambda: int(time.time() * 1e9)
    time.perf_counter = lambda: r_perf() if P is None else P.clock()[1]
    time.monotonic = lambda: r_mono() if P is None else P.clock()[1]
    time.process_time = lambda: r_perf() if P is None else P.clock()[1]
    time.perf_counter_ns = lambda: int(time.perf_counter() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    timeit.default_timer = time.perf_counter
    time.localtime = lambda s=None: r_localtime(time.time() if s is None else s)
    time.gmtime = lambda s=None: r_gmtime(time.time() if s is None else s)
    time.strftime = lambda f, t=None: r_strftime(f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: r_ctime(time.time() if s is None else s)

    def sleep(s):
        if P is None:
            return r_sleep(s)
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        P.call("sleep", float(s))
    time.sleep = sleep
    _dt.datetime = SimDateTime
    _dt.date = SimDate


# ------------------------------------------------------------------------------------- files
def _hook_close(f, p, writing):
    real_close = f.close
    state = {"done": False}

    def close():
        if state["done"] or P is None or P.inside or f.closed:
            state["done"] = True
            return real_close()
        state["done"] = True
        act = ""
        try:
            act = P.op("close", p)
        except OSError:
            _truncate_half(f, real_close)
            raise
        if act == "torn":
            _truncate_half(f, lambda: None)
            die()
        return real_close()
    try:
        f.close = close
    except AttributeError:
        pass
    return f


def _truncate_half(f, closer):
    """What reached the disk is a prefix of what was written."""
    try:
        f.flush()
        fd = f.fileno()
        n = os.fstat(fd).st_size
        _real["os.ftruncate"](fd, n // 2)
    except Exception:
        pass
    try:
        closer()
    except Exception:
        pass


def _patch_files():
    r_open = io.open
    _real["open"] = r_open

    def sim_open(file, mode="r", *a, **kw):
        if P is None or P.inside or isinstance(file, int) or kw.get("opener") is not None:
            return r_open(file, mode, *a, **kw)
        p = _abspath(file)
        ov = P.overlay.get(p)
        if ov is not None and not any(c in mode for c in "wax+"):
            return r_open(ov, mode, *a, **kw)
        writing = any(c in mode for c in "wax+")
        if not writing:
            if in_scratch(p) and os.path.exists(p):
                P.op("open_r", p)
            return r_open(file, mode, *a, **kw)
        if not guard(p, "open for writing"):
            return r_open(file, mode, *a, **kw)
        P.op("open_w", p)
        f = r_open(file, mode, *a, **kw)
        return _hook_close(f, p, True)

    builtins.open = sim_open
    io.open = sim_open

    def mut1(name, kind, follow=True, only=None):
        real = getattr(os, name)
        _real["os." + name] = real

        def fn(path, *a, dir_fd=None, **kw):
            if dir_fd is not None:
                kw["dir_fd"] = dir_fd
            if P is None or P.inside or isinstance(path, int):
                return real(path, *a, **kw)
            p = _abspath(path, dir_fd)
            if guard(p, name, follow):
                act = P.op(kind, p)
                if act == "torn":        # performed, then dead
                    real(path, *a, **kw)
                    die()
            return real(path, *a, **kw)
        fn.__name__ = name
        return real, fn

    sup = {}
    for name, kind, follow in (("mkdir", "mkdir", False), ("unlink", "unlink", False), ("remove", "unlink", False),
                               ("rmdir", "rmdir", False), ("chmod", "chmod", True), ("truncate", "truncate", True),
                               ("mkfifo", "mkfifo", False)):
        real, fn = mut1(name, kind, follow)
        sup[real] = fn
        setattr(os, name, fn)

    def mut2(name, kind):
        real = getattr(os, name)
        _real["os." + name] = real

        def fn(src, dst, *a, **kw):
            if P is None or P.inside:
                return real(src, dst, *a, **kw)
            d = _abspath(dst, kw.get("dst_dir_fd") or kw.get("dir_fd"))
            s = _abspath(src, kw.get("src_dir_fd")) if name != "symlink" else os.fsdecode(src)
            if name in ("rename", "replace"):
                guard(s, name, False)
            if guard(d, name, False):
                act = P.op(kind, d, s)
                if act == "torn":
                    real(src, dst, *a, **kw)
                    die()
            return real(src, dst, *a, **kw)
        fn.__name__ = name
        sup[real] = fn
        setattr(os, name, fn)
    for name, kind in (("rename", "rename"), ("replace", "rename"), ("symlink", "symlink"), ("link", "link")):
        mut2(name, kind)

    for grp in ("supports_dir_fd", "supports_follow_symlinks", "supports_fd", "supports_effective_ids"):
        s = getattr(os, grp)
        for real, fn in sup.items():
            if real in s:
                s.add(fn)

    r_os_open = os.open
    _real["os.open"] = r_os_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        kw = {} if dir_fd is None else {"dir_fd": dir_fd}
        if P is not None and not P.inside and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            p = _abspath(path, dir_fd)
            if guard(p, "os.open"):
                P.op("open_w", p)
        return r_os_open(path, flags, mode, **kw)
    os.open = os_open
    os.supports_dir_fd.add(os_open)
    _real["os.ftruncate"] = os.ftruncate
    _real["os._exit"] = os._exit
    _real["os.write"] = os.write
    _real["os.read"] = os.read

    r_listdir, r_scandir = os.listdir, os.scandir
    _real.update({"os.listdir": r_listdir, "os.scandir": r_scandir})

    def order(names, p):
        names = sorted(names)
        seed = P.call("list", p)
        if seed is not None:
            random.Random(seed).shuffle(names)
        return names

    def listdir(path="."):
        if P is None or P.inside:
            return r_listdir(path)
        p = _abspath(path) if not isinstance(path, int) else os.readlink(f"/proc/self/fd/{path}")
        names = r_listdir(path)
        return order(names, p) if in_scratch(p) else names

    class ScanIter:
        def __init__(self, it, entries):
            self._it, self._e = it, iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._e)

        def close(self):
            self._it.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._it.close()

    def scandir(path="."):
        if P is None or P.inside:
            return r_scandir(path)
        p = _abspath(path) if not isinstance(path, int) else os.readlink(f"/proc/self/fd/{path}")
        it = r_scandir(path)
        if not in_scratch(p):
            return it
        by = {e.name: e for e in it}
        return ScanIter(it, [by[n] for n in order(list(by), p)])
    os.listdir, os.scandir = listdir, scandir
    for grp in (os.supports_fd,):
        grp.update({listdir, scandir})
    # shutil keeps module-level references and capability flags computed from the originals
    import shutil
    if getattr(shutil, "_rmtree_unlink", None):
        pass


# -------------------------------------------------------------------------------------- HDF5
def _patch_h5():
    import h5py
    from h5py._hl import attrs as h5attrs
    r_init, r_close = h5py.File.__init__, h5py.File.close
    _real["h5.init"] = r_init

    def init(self, name, mode="r", *a, **kw):
        if P is None or P.inside or not isinstance(name, (str, bytes, os.PathLike)):
            return r_init(self, name, mode, *a, **kw)
        p = _abspath(name)
        if mode == "r":
            if in_scratch(p) and os.path.exists(p):
                P.op("open_r", p)
        elif guard(p, "h5 open"):
            P.op("open_w", p)
        return r_init(self, name, mode, *a, **kw)

    def close(self):
        if P is not None and not P.inside and self.id and self.id.valid and self.mode != "r":
            p = os.path.normpath(os.path.abspath(self.filename))
            act = P.op("close", p)
            if act == "torn":
                self.flush()
                n = os.path.getsize(p)
                with _real["open"](p, "r+b") as f:
                    _real["os.ftruncate"](f.fileno(), n // 2)
                die()
        return r_close(self)
    h5py.File.__init__, h5py.File.close = init, close

    def wrap(cls, name, kind):
        real = getattr(cls, name)

        def fn(self, *a, **kw):
            if P is not None and not P.inside:
                try:
                    f = self.file.filename if hasattr(self, "file") else None
                    node = self.name
                except Exception:
                    f = node = None
                if f is not None:
                    P.op(kind, os.path.normpath(os.path.abspath(f)),
                         f"{node}/{a[0] if a else kw.get('name')}")
                P.inside += 1
                try:
                    return real(self, *a, **kw)
                finally:
                    P.inside -= 1
            return real(self, *a, **kw)
        fn.__name__ = name
        setattr(cls, name, fn)
    wrap(h5py.Group, "create_dataset", "h5ds")
    wrap(h5py.Group, "create_group", "h5grp")
    wrap(h5py.Group, "__delitem__", "h5del")

    r_create = h5attrs.AttributeManager.create

    def create(self, name, data, *a, **kw):
        if P is not None and not P.inside:
            try:
                from h5py import h5f, h5i
                fn = os.fsdecode(h5f.get_name(self._id))
            except Exception:
                fn = None
            if fn:
                P.op("h5attr", os.path.normpath(os.path.abspath(fn)), str(name))
        return r_create(self, name, data, *a, **kw)
    h5attrs.AttributeManager.create = create


class HDFStore:
    """Stand-in for pandas.HDFStore (PyTables is not installed): the same file name and key
    semantics, kept as one HDF5 dataset per key in a real h5py file."""

    def __init__(self, path, mode="a", **kw):
        import h5py
        self._path, self._mode = os.fspath(path), mode
        if mode == "r" and not os.path.exists(self._path):
            raise FileNotFoundError(f"File {self._path} does not exist")
        self._h = h5py.File(self._path, mode)
        self.is_open = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.is_open:
            self.is_open = False
            self._h.close()

    def flush(self, fsync=False):
        self._h.flush()

    def keys(self, include="pandas"):
        return ["/" + k for k in self._h]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._h)

    def __contains__(self, key):
        return key.strip("/") in self._h

    def put(self, key, value, **kw):
        import numpy as np
        k = key.strip("/")
        if k in self._h:
            del self._h[k]
        self._h.create_dataset(k, data=np.frombuffer(pickle.dumps(value, protocol=4), dtype="u1"))

    __setitem__ = put

    def get(self, key):
        k = key.strip("/")
        if k not in self._h:
            raise KeyError(f"No object named {key} in the file")
        return pickle.loads(self._h[k][()].tobytes())

    def __getitem__(self, key):
        return self.get(key)

    def select(self, key, *a, **kw):
        return self.get(key)

    def remove(self, key, *a, **kw):
        del self._h[key.strip("/")]

    def append(self, key, value, **kw):
        import pandas as pd
        self.put(key, pd.concat([self.get(key), value]) if key in self else value)


def _patch_pandas():
    import pandas as pd

    def to_hdf(self, path_or_buf, key, mode="a", **kw):
        if isinstance(path_or_buf, HDFStore):
            return path_or_buf.put(key, self)
        with HDFStore(path_or_buf, mode) as h:
            h.put(key, self)

    def read_hdf(path_or_buf, key=None, mode="r", **kw):
        def rd(h):
            return h.get(key if key is not None else h.keys()[0])
        if isinstance(path_or_buf, HDFStore):
            return rd(path_or_buf)
        with HDFStore(path_or_buf, "r") as h:
            return rd(h)
    pd.HDFStore = HDFStore
    pd.DataFrame.to_hdf = to_hdf
    pd.Series.to_hdf = to_hdf
    pd.read_hdf = read_hdf


# --------------------------------------------------------------------------------- processes
def _patch_processes():
    import subprocess
    r_popen = subprocess.Popen
    _real["Popen"] = r_popen

    class SimPopen:
        """subprocess.Popen against the simulated shell."""

        def __new__(cls, *a, **kw):
            if P is None:
                return r_popen(*a, **kw)
            return object.__new__(cls)

        def __class_getitem__(cls, item):
            return cls

        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, text=None, encoding=None, errors=None, **kw):
            self.args = args
            self._text = bool(universal_newlines or text or encoding or errors)
            if isinstance(args, (str, bytes, os.PathLike)):
                line = os.fsdecode(args)
                argv = None if shell else [line]
            else:
                argv = [os.fsdecode(x) for x in args]
                line = argv[0] if shell else None
                if shell:
                    argv = None
            sys.stdout.flush()
            sys.stderr.flush()
            self._out_mode, self._err_mode = stdout, stderr
            self.returncode = None
            self._res = None
            rep = P.call("spawn", line, argv, os.path.abspath(os.fspath(cwd)) if cwd else os.getcwd(),
                         dict(os.environ if env is None else env))
            if rep[0] == "err":
                raise {"FileNotFoundError": FileNotFoundError, "PermissionError": PermissionError,
                       "OSError": OSError}[rep[1]](rep[2], os.strerror(rep[2]), argv[0] if argv else line)
            self.pid = rep[1]
            self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
            self.stdout = _LazyStream(self, 1) if stdout == subprocess.PIPE else None
            self.stderr = _LazyStream(self, 2) if stderr == subprocess.PIPE else None

        def _finish(self):
            if self._res is None:
                self._res = P.call("waitpid", self.pid, None)
                self.returncode, out, err = self._res
                if self._err_mode == subprocess.STDOUT:
                    out, err = out + err, b""
                self._out, self._err = out, err
                for mode, data, std in ((self._out_mode, out, sys.stdout), (self._err_mode, err, sys.stderr)):
                    if mode is None and data:
                        std.write(data.decode("utf-8", "replace"))
                        std.flush()
                    elif hasattr(mode, "write"):
                        mode.write(data if "b" in getattr(mode, "mode", "b") else data.decode())
                    elif isinstance(mode, int) and mode >= 0:
                        _write_all(mode, data)
                self.stdout = None if self._out_mode != subprocess.PIPE else self._io(out)
                self.stderr = None if self._err_mode != subprocess.PIPE else self._io(err)

        def _io(self, b):
            return io.StringIO(b.decode()) if self._text else io.BytesIO(b)

        def communicate(self, input=None, timeout=None):
            if timeout is not None and self._res is None:
                self.wait(timeout)
            self._finish()
            cv = (lambda b: b.decode()) if self._text else (lambda b: b)
            return (cv(self._out) if self._out_mode == subprocess.PIPE else None,
                    cv(self._err) if self._err_mode == subprocess.PIPE else None)

        def wait(self, timeout=None):
            if self._res is None and timeout is not None:
                if not P.call("waitpid_for", self.pid, float(timeout)):
                    raise subprocess.TimeoutExpired(self.args, timeout)
            self._finish()
            return self.returncode

        def poll(self):
            if self._res is None and P.call("polled", self.pid):
                self._finish()
            return self.returncode

        def kill(self):
            if self._res is None:
                P.call("kill", self.pid, 9)

        terminate = kill

        def send_signal(self, s):
            self.kill()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._finish()

    class _LazyStream:
        def __init__(self, proc, n):
            self.p, self.n = proc, n

        def _get(self):
            self.p._finish()
            return self.p.stdout if self.n == 1 else self.p.stderr

        def read(self, *a):
            return self._get().read(*a)

        def readline(self, *a):
            return self._get().readline(*a)

        def readlines(self):
            return self._get().readlines()

        def __iter__(self):
            return iter(self._get())

        def close(self):
            pass

    subprocess.Popen = SimPopen

    r_system, r_getpid = os.system, os.getpid
    _real["os.getpid"] = r_getpid

    def system(cmd):
        if P is None:
            return r_system(cmd)
        return subprocess.call(cmd, shell=True) << 8
    os.system = system
    os.getpid = lambda: r_getpid() if P is None else P.simpid
    for name in ("fork", "forkpty", "posix_spawn", "posix_spawnp", "execv", "execve", "execvp"):
        real = getattr(os, name)
        _real["os." + name] = real

        def fn(*a, _r=real, _n=name, **kw):
            if P is not None:
                P.call("unsupported", "os." + _n)
                raise OSError(errno.ENOSYS, "not simulated: os." + _n)
            return _r(*a, **kw)
        setattr(os, name, fn)

    r_urandom = os.urandom
    os.urandom = lambda n: r_urandom(n) if P is None else P.lrng.randbytes(n)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        return "%08x" % (P.lrng.getrandbits(32) if P is not None else random.getrandbits(32))


def enter(client):
    """Become a simulated process (called in the forked child)."""
    global P
    P = client
    tempfile._name_sequence = _Names()
    tempfile.tempdir = os.environ.get("TMPDIR")
    random.seed(client.lrng.getrandbits(32))
    try:
        import numpy as np
        np.random.seed(client.lrng.getrandbits(31))
    except Exception:
        pass


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    import shutil  # noqa: F401  (capability flags are computed from the unpatched os)
    import glob, pathlib, logging, platform  # noqa: F401,E401
    platform.uname().processor               # cached before Popen is patched
    _patch_clocks()
    _patch_files()
    _patch_h5()
    _patch_pandas()
    _patch_processes()
