"""Process side of the simulator.

install() replaces, once and before flowstab is imported, the standard-library
functions through which a program meets the outside world: files, directories,
clocks, entropy, process ids and process pools.  As long as no Client is active
the replacements call the originals.  In a simulated process every such call
becomes a request to the kernel (kernel.py), which decides who runs next and
what happens to the call; the process is parked until the kernel answers.
"""
import builtins
import concurrent.futures
import concurrent.futures.process
import errno
import hashlib
import io
import itertools
import multiprocessing.pool
import os
import pickle
import random
import shutil
import socket
import sys
import time
import traceback

from . import wire

CL = None                      # Client of this process, None outside simulation

real = type("Real", (), {})()  # the originals
for _n in ("open replace rename renames link unlink remove mkdir rmdir stat lstat "
           "listdir scandir fsync fdatasync truncate ftruncate urandom getpid "
           "write sync getppid").split():
    setattr(real, "os_" + _n, getattr(os, _n))
for _n in ("time time_ns monotonic monotonic_ns perf_counter perf_counter_ns "
           "process_time process_time_ns sleep localtime gmtime strftime ctime").split():
    setattr(real, _n, getattr(time, _n))
real.open = builtins.open
real.Pool = multiprocessing.pool.Pool
real.Executor = concurrent.futures.process.ProcessPoolExecutor
real.fork = os.fork


class Client:
    """Connection of one simulated process to the kernel."""

    def __init__(self, addr, simpid, root, seed):
        self.addr, self.simpid, self.root, self.seed = addr, simpid, root, seed
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.connect(addr)
        self.wall = 0.0
        self.mono = 0.0
        self.ent = 0
        self.weak = 0
        self.bufsize = 8192
        self.in_pool_worker = False
        self.fired = []
        self.armed = None
        wire.send(self.sock, ("hello", simpid, real.os_getpid()))

    def call(self, op, *args):
        """Ask the kernel; returns its value or raises what it injects."""
        note = None
        if self.fired:
            note, self.fired = self.fired, []
        try:
            wire.send(self.sock, (op, args, note))
            status, value, wall, mono, arm, bufsize = wire.recv(self.sock)
        except (wire.Gone, OSError):
            os._exit(97)
        self.wall, self.mono, self.bufsize = wall, mono, bufsize
        if arm is not None:
            self.armed = list(arm)
            _monitor(True)
        if status == "ok":
            return value
        if status == "err":
            code, path = value
            raise OSError(code, os.strerror(code), path)
        if status == "exc":
            raise value
        raise RuntimeError(status)

    def rel(self, path):
        """Path relative to the simulated directory, None if it is elsewhere."""
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = os.path.join(os.getcwd(), path)
        path = os.path.normpath(path)
        if path == self.root:
            return "."
        if path.startswith(self.root + "/"):
            return path[len(self.root) + 1:]
        return None

    def rel_fd(self, fd):
        try:
            return self.rel(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            return None

    def spawn(self, kind, pool):
        """Fork a simulated process.  Returns 0 in the child."""
        simpid, seed = self.call("fork", kind, pool)
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:       # workers that have ended
                pass
        except OSError:
            pass
        if real.fork() == 0:
            try:
                self.sock.close()
                global CL
                wall, mono = self.wall, self.mono
                CL = Client(self.addr, simpid, self.root, seed)
                CL.wall, CL.mono = wall, mono
                CL.in_pool_worker = kind == "pool"
                CL.call("start")
            except BaseException:
                os._exit(98)
            return 0
        return simpid

    def exit(self, status, payload=None):
        try:
            self.call("exit", status, payload)
        except BaseException:
            pass
        os._exit(0)


# --------------------------------------------------------------------- files

class SimFileIO(io.FileIO):
    def __init__(self, file, mode, closefd=True, opened_rel=None):
        self._sim_rel = opened_rel
        if opened_rel is None:
            self._sim_rel = CL.rel(file)
            CL.call("open", self._sim_rel, mode)
        super().__init__(file, mode, closefd)

    def write(self, b):
        if CL is None:
            return super().write(b)
        view = memoryview(b).cast("B")
        n = len(view)
        if n == 0:
            return 0
        k, code = CL.call("write", self._sim_rel, n)
        if k:
            super().write(view[:k])
        if code:
            CL.call("wrote", self._sim_rel)
            raise OSError(code, os.strerror(code), self._sim_rel)
        return k

    def _read_point(self):
        if CL is not None:
            CL.call("read", self._sim_rel)

    def readinto(self, b):
        self._read_point()
        return super().readinto(b)

    def read(self, size=-1):
        self._read_point()
        return super().read(size)

    def readall(self):
        self._read_point()
        return super().readall()

    def truncate(self, size=None):
        if CL is not None:
            CL.call("trunc", self._sim_rel)
        return super().truncate(size)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if CL is None:
        return real.open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    opened_rel = None
    if isinstance(file, int):
        opened_rel = CL.rel_fd(file)
        if opened_rel is None:
            return real.open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    elif CL.rel(file) is None:
        return real.open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if opener is not None:
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[mode.strip("bt+U")[0]]
        if "+" in mode:
            flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        file = opener(file, flags | os.O_CLOEXEC)
        opened_rel = CL.rel_fd(file) or "?"
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimFileIO(file, rawmode, closefd, opened_rel)
    size = buffering if buffering > 1 else CL.bufsize
    try:
        if binary and buffering == 0:
            return raw
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] == "r":
            buf = io.BufferedReader(raw, 8192)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _fs1(name, op):
    orig = getattr(real, "os_" + name)

    def fn(path, *a, **k):
        if CL is not None and not k.get("dir_fd"):
            r = CL.rel(path) if not isinstance(path, int) else None
            if r is not None:
                CL.call(op, r)
        return orig(path, *a, **k)
    fn.__name__ = name
    return fn


def _fs2(name, op):
    orig = getattr(real, "os_" + name)

    def fn(src, dst, *a, **k):
        if CL is not None:
            r, s = CL.rel(src), CL.rel(dst)
            if r is not None or s is not None:
                CL.call(op, r, s)
        return orig(src, dst, *a, **k)
    fn.__name__ = name
    return fn


def sim_os_open(path, flags, *a, **k):
    if CL is not None:
        r = CL.rel(path)
        if r is not None:
            mode = "r"
            if flags & (os.O_WRONLY | os.O_RDWR):
                mode = "w" if flags & os.O_TRUNC else ("x" if flags & os.O_EXCL else "a")
            CL.call("open", r, mode)
    return real.os_open(path, flags, *a, **k)


def sim_os_write(fd, data):
    if CL is not None and fd > 2:
        r = CL.rel_fd(fd)
        if r is not None:
            k, code = CL.call("write", r, len(data))
            if k:
                real.os_write(fd, bytes(data)[:k])
            if code:
                CL.call("wrote", r)
                raise OSError(code, os.strerror(code), r)
            return k
    return real.os_write(fd, data)


def _fsync(name):
    orig = getattr(real, "os_" + name)

    def fn(fd):
        if CL is not None:
            n = fd if isinstance(fd, int) else fd.fileno()
            r = CL.rel_fd(n)
            if r is not None:
                CL.call("fsync", r)
                return None
        return orig(fd)
    return fn


def sim_listdir(path="."):
    if CL is not None and not isinstance(path, int):
        r = CL.rel(path)
        if r is not None:
            key = CL.call("list", r)
            return _permute(sorted(real.os_listdir(path)), key)
    return real.os_listdir(path)


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self.it = iter(())


def sim_scandir(path="."):
    if CL is not None and not isinstance(path, int):
        r = CL.rel(path)
        if r is not None:
            key = CL.call("list", r)
            with real.os_scandir(path) as it:
                ents = sorted(it, key=lambda e: e.name)
            return _Scan(_permute(ents, key))
    return real.os_scandir(path)


def _permute(items, key):
    """Directory order: 0 sorted, 1 reversed, otherwise a seeded shuffle."""
    if key == 0:
        return items
    if key == 1:
        return items[::-1]
    name = (lambda x: x if isinstance(x, str) else os.fsdecode(getattr(x, "name", x)))
    return sorted(items, key=lambda x: hashlib.md5(f"{key}/{name(x)}".encode()).digest())


# ------------------------------------------------------- clocks and entropy

def _tick():
    CL.wall += 1e-4
    CL.mono += 1e-4


def _clock(name, attr, scale=None):
    orig = getattr(real, name)

    def fn():
        if CL is None:
            return orig()
        _tick()
        v = getattr(CL, attr)
        return int(v * 1e9) if scale else v
    fn.__name__ = name
    return fn


def sim_sleep(s):
    if CL is None:
        return real.sleep(s)
    CL.call("sleep", float(s))
    return None


def _timefmt(name):
    orig = getattr(real, name)

    def fn(secs=None):
        if secs is None and CL is not None:
            secs = CL.wall
        return orig(secs) if secs is not None else orig()
    return fn


def sim_strftime(fmt, t=None):
    if t is None and CL is not None:
        t = real.localtime(CL.wall)
    return real.strftime(fmt, t) if t is not None else real.strftime(fmt)


def sim_urandom(n):
    if CL is None:
        return real.os_urandom(n)
    CL.ent += 1
    ent = CL.ent
    if CL.weak and n <= 8:            # short random numbers repeat or are extreme
        if CL.weak < 0:
            return [b"\0", b"\xff"][ent % 2] * n
        ent %= CL.weak
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(f"{CL.seed}/{ent}/{i}".encode()).digest()
        i += 1
    return out[:n]


def sim_getpid():
    return real.os_getpid() if CL is None else 100000 + CL.simpid


# --------------------------------------- failing allocations, interruptions

_TOOL = 3
_HEAVY = ("numpy", "scipy", "pandas", "_cython_fast_funcs", "_cython_sparse_stoch")
_PKG = None                    # directory of the package under test


def _heavy(callable_):
    mod = getattr(callable_, "__module__", None)
    if not isinstance(mod, str):
        slf = getattr(callable_, "__self__", None)
        mod = getattr(type(slf), "__module__", None)
        if not isinstance(mod, str):
            mod = type(callable_).__module__
    return isinstance(mod, str) and mod.split(".")[0] in _HEAVY


def _on_call(code, offset, callable_, arg0):
    if not code.co_filename.startswith(_PKG):
        return sys.monitoring.DISABLE
    if CL is None or CL.armed is None:
        return None
    if not _heavy(callable_):
        return None
    CL.armed[1] -= 1
    if CL.armed[1] > 0:
        return None
    kind = CL.armed[0]
    CL.armed = None
    CL.fired.append((kind, f"{os.path.basename(code.co_filename)}:{code.co_name}"))
    if kind == "mem":
        raise MemoryError("injected")
    if kind == "intr":
        raise KeyboardInterrupt("injected")
    if kind == "rand":                   # another user of the common random numbers
        import numpy as np
        np.random.seed(4711)
        random.seed(4711)
    return None


_mon_on = False


def _monitor(on):
    global _mon_on
    if on == _mon_on:
        return
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "sim")
        mon.register_callback(_TOOL, mon.events.CALL, _on_call)
    mon.set_events(_TOOL, mon.events.CALL if on else 0)
    _mon_on = on


def disarm():
    """Take back an armed compute fault that has not fired."""
    if CL is not None:
        CL.armed = None


# ---------------------------------------------------------- process pools

class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _rebuild(exc, tb):
    exc.__cause__ = RemoteTraceback(tb)
    return exc


class _ExcTb:
    def __init__(self, exc):
        self.tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        self.exc = exc
        exc.__traceback__ = None

    def __reduce__(self):
        return _rebuild, (self.exc, self.tb)


def _mapstar(args):
    return list(map(*args))


def _starmapstar(args):
    return list(itertools.starmap(args[0], args[1]))


def _encode_result(ok, val):
    try:
        return ok, pickle.dumps(val, 4)
    except Exception as e:
        return False, pickle.dumps(multiprocessing.pool.MaybeEncodingError(e, "result"), 4)


def _worker_loop(pool, kind, initializer, initargs):
    """Body of a pool worker; never returns."""
    try:
        if initializer is not None:
            initializer(*initargs)
    except BaseException as e:
        CL.exit(1, f"initializer: {e!r}")
    while True:
        task = CL.call("pool_get", pool)
        if task is None:
            CL.exit(0)
        job, idx, data = task
        try:
            func, args, kwds = pickle.loads(data)
        except BaseException as e:
            CL.exit(1, f"cannot read task: {e!r}")
        try:
            ok, val = True, func(*args, **kwds)
        except Exception as e:
            ok, val = False, _ExcTb(e)
        except BaseException as e:
            if kind == "exec":
                ok, val = False, _ExcTb(e)
            else:
                CL.exit(1, f"worker: {e!r}")
        disarm()
        ok, data = _encode_result(ok, val)
        CL.call("pool_res", pool, job, idx, ok, data)


class _Async:
    """Result of map_async, apply_async, ..."""

    def __init__(self, pool, job, nchunks, single=False, callback=None, error_callback=None):
        self._pool, self._job, self._n = pool, job, nchunks
        self._single = single
        self._done = nchunks == 0
        self._ok, self._val = True, []
        self._cb, self._ecb = callback, error_callback

    def _collect(self):
        if self._done:
            return
        res = self._pool._wait(self._job, "all", None)
        vals = []
        for ok, data in res:               # in completion order of failures
            if not ok:
                self._ok, self._val = False, pickle.loads(data)
                break
        else:
            for ok, data in res:
                v = pickle.loads(data)
                if self._single:
                    vals = v
                else:
                    vals.extend(v)
            self._val = vals
        self._done = True
        if self._ok and self._cb:
            self._cb(self._val)
        if not self._ok and self._ecb:
            self._ecb(self._val)

    def get(self, timeout=None):
        self._collect()
        if self._ok:
            return self._val
        raise self._val

    def wait(self, timeout=None):
        self._collect()

    def ready(self):
        return self._done or CL.call("pool_poll", self._pool._id, self._job)

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        self._collect()
        return self._ok


class SimPool:
    """multiprocessing.Pool on simulated processes (fork start method)."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if CL.in_pool_worker:
            raise AssertionError("daemonic processes are not allowed to have children")
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._n, self._init = processes, (initializer, initargs)
        self._processes = processes
        self._id = CL.call("pool_new", processes, "pool")
        self._jobs = 0
        self._closed = False
        for _ in range(processes):
            self._fork()

    def _fork(self):
        if CL.spawn("pool", self._id) == 0:
            _worker_loop(self._id, "pool", *self._init)

    def _wait(self, job, mode, idx):
        while True:
            what, val = CL.call("pool_wait", self._id, job, mode, idx)
            if what == "respawn":
                for _ in range(val):
                    self._fork()
                continue
            return val

    def _submit(self, tasks):
        if self._closed:
            raise ValueError("Pool not running")
        job = self._jobs
        self._jobs += 1
        CL.call("pool_put", self._id, job, [pickle.dumps(t, 4) for t in tasks])
        return job

    def _chunks(self, iterable, chunksize):
        seq = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(seq), self._n * 4)
            if extra:
                chunksize += 1
        if len(seq) == 0:
            return []
        return [tuple(seq[i:i + chunksize]) for i in range(0, len(seq), chunksize)]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        ch = self._chunks(iterable, chunksize)
        job = self._submit([(_mapstar, ((func, c),), {}) for c in ch])
        return _Async(self, job, len(ch), False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        ch = self._chunks(iterable, chunksize)
        job = self._submit([(_starmapstar, ((func, c),), {}) for c in ch])
        return _Async(self, job, len(ch), False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        job = self._submit([(func, tuple(args), dict(kwds))])
        return _Async(self, job, 1, True, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, mode):
        seq = list(iterable)
        ch = [tuple(seq[i:i + chunksize]) for i in range(0, len(seq), chunksize)]
        job = self._submit([(_mapstar, ((func, c),), {}) for c in ch])
        seen = 0
        for i in range(len(ch)):
            ok, data = self._wait(job, mode, i)
            val = pickle.loads(data)
            if not ok:
                raise val
            seen += 1
            yield from val

    def imap(self, func, iterable, chunksize=1):
        return self._start(self._imap(func, iterable, chunksize, "index"))

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._start(self._imap(func, iterable, chunksize, "next"))

    @staticmethod
    def _start(gen):
        return gen

    def close(self):
        self._closed = True
        CL.call("pool_close", self._id)

    def terminate(self):
        self._closed = True
        CL.call("pool_term", self._id)

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")
        CL.call("pool_join", self._id)

    def __enter__(self):
        if self._closed:
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()


class SimFuture:
    def __init__(self, pool, job):
        self._pool, self._job = pool, job
        self._state = None
        self._cbs = []

    def _collect(self):
        if self._state is None:
            ok, data = self._pool._wait(self._job)
            self._state = (ok, pickle.loads(data) if data is not None else None)
            for cb in self._cbs:
                cb(self)

    def result(self, timeout=None):
        self._collect()
        ok, val = self._state
        if ok:
            return val
        raise val

    def exception(self, timeout=None):
        self._collect()
        return None if self._state[0] else self._state[1]

    def done(self):
        return self._state is not None or CL.call("pool_poll", self._pool._id, self._job)

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def running(self):
        return not self.done()

    def add_done_callback(self, fn):
        self._cbs.append(fn)


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor on simulated processes."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), *, max_tasks_per_child=None):
        if CL.in_pool_worker:
            raise AssertionError("daemonic processes are not allowed to have children")
        if max_workers is None:
            max_workers = 4
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._n, self._init = max_workers, (initializer, initargs)
        self._id = CL.call("pool_new", max_workers, "exec")
        self._jobs = 0
        self._started = self._down = False

    def submit(self, fn, /, *args, **kwargs):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        data = pickle.dumps((fn, args, kwargs), 4)
        job = self._jobs
        self._jobs += 1
        if CL.call("pool_put", self._id, job, [data]) == "broken":
            raise concurrent.futures.process.BrokenProcessPool("broken")
        if not self._started:
            self._started = True
            for _ in range(self._n):
                if CL.spawn("exec", self._id) == 0:
                    _worker_loop(self._id, "exec", *self._init)
        return SimFuture(self, job)

    def _wait(self, job):
        what, val = CL.call("pool_wait", self._id, job, "all", None)
        if what == "broken":
            return False, pickle.dumps(concurrent.futures.process.BrokenProcessPool(
                "A process in the process pool was terminated abruptly"))
        return val[0]

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        items = list(zip(*iterables))
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        fs = [self.submit(_starmapstar, (fn, c)) for c in chunks]

        def results():
            for f in fs:
                yield from f.result()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._down:
            return
        self._down = True
        CL.call("pool_close", self._id)
        if wait:
            CL.call("pool_join", self._id)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


def _sim_as_completed(fs, timeout=None):
    """as_completed for simulated futures: the kernel decides the order."""
    fs = list(fs)
    if CL is None or not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        jobs = [(f._pool._id, f._job) for f in left]
        i = CL.call("pool_any", jobs)
        f = left.pop(i)
        f._collect()
        yield f


def _sim_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if CL is None or not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)
    for f in fs:
        f._collect()
    return concurrent.futures._base.DoneAndNotDoneFutures(set(fs), set())


_real_as_completed = concurrent.futures.as_completed
_real_wait = concurrent.futures.wait


class _PoolMeta(type):
    def __getattr__(cls, name):
        return getattr(real.Pool, name)

    def __call__(cls, *a, **k):
        return real.Pool(*a, **k) if CL is None else SimPool(*a, **k)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (real.Pool, SimPool))


class Pool(metaclass=_PoolMeta):
    pass


class _ExecMeta(type):
    def __call__(cls, *a, **k):
        return real.Executor(*a, **k) if CL is None else SimExecutor(*a, **k)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (real.Executor, SimExecutor))


class ProcessPoolExecutor(metaclass=_ExecMeta):
    pass


# ----------------------------------------------------------------- install

_installed = False


def install(package_dir):
    global _installed, _PKG
    _PKG = package_dir
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.replace = _fs2("replace", "replace")
    os.rename = _fs2("rename", "replace")
    os.link = _fs2("link", "link")
    os.unlink = _fs1("unlink", "unlink")
    os.remove = _fs1("remove", "unlink")
    os.mkdir = _fs1("mkdir", "mkdir")
    os.rmdir = _fs1("rmdir", "rmdir")
    os.stat = _fs1("stat", "stat")
    os.lstat = _fs1("lstat", "stat")
    os.truncate = _fs1("truncate", "trunc")
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.fsync = _fsync("fsync")
    os.fdatasync = _fsync("fdatasync")
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    os.getpid = sim_getpid
    shutil._USE_CP_SENDFILE = False
    time.time = _clock("time", "wall")
    time.time_ns = _clock("time_ns", "wall", 1)
    for n in ("monotonic", "perf_counter", "process_time"):
        setattr(time, n, _clock(n, "mono"))
        setattr(time, n + "_ns", _clock(n + "_ns", "mono", 1))
    time.sleep = sim_sleep
    time.localtime = _timefmt("localtime")
    time.gmtime = _timefmt("gmtime")
    time.ctime = _timefmt("ctime")
    time.strftime = sim_strftime
    multiprocessing.pool.Pool = Pool
    concurrent.futures.process.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.as_completed = _sim_as_completed
    concurrent.futures.wait = _sim_wait


def configure(conf):
    """A machine without an optional dependency: what the library sets when it is not found."""
    if not conf:
        return
    import flowstab
    mods = [m for n, m in sys.modules.items() if n.startswith("flowstab.")]
    for m in mods:
        if conf in ("mkl", "both") and hasattr(m, "USE_SPARSE_DOT_MKL"):
            m.USE_SPARSE_DOT_MKL = False
        if conf in ("cython", "both") and hasattr(m, "USE_CYTHON"):
            m.USE_CYTHON = False
    if conf == "stochastic":
        m = sys.modules["flowstab.sparse_stoch_mat"]
        if hasattr(m, "_css"):
            from flowstab import _cython_subst
            m._css = _cython_subst


def without_compiled():
    m = sys.modules["flowstab.sparse_stoch_mat"]
    return getattr(getattr(m, "_css", None), "__name__", "").endswith("_cython_subst")


def enter_root(addr, simpid, root, seed, entry, args):
    """Body of the first process of a simulated job; never returns."""
    global CL
    import numpy as np
    devnull = real.os_open("/dev/null", os.O_RDWR)
    for fd in ((0, 1, 2) if os.environ.get("SIM_QUIET", "1") == "1" else (0,)):
        os.dup2(devnull, fd)
    os.chdir(root)
    try:
        CL = Client(addr, simpid, root, seed)
        np.random.seed(seed % 2**32)
        random.seed(seed)
        CL.call("start")
    except BaseException:
        os._exit(98)
    try:
        payload = entry(*args)
        status = 0
    except SystemExit as e:
        status, payload = (e.code if isinstance(e.code, int) else (0 if e.code is None else 1)), None
    except BaseException:
        status, payload = 1, traceback.format_exc()
    CL.exit(status, payload)


def script_entry(module, argv):
    """Run a module as `python -m module argv...` would."""
    import runpy
    sys.argv = [module, *argv]
    runpy.run_module(module, run_name="__main__", alter_sys=True)
    return None


def point(name, *data):
    """A schedule point of a scenario function."""
    return CL.call("point", name, *data)
