"""The seams: file system, subprocesses, clocks, randomness, process identity.

Everything is installed in a forked child only.  Effects land in a scratch
directory; an audit hook denies (and records) anything aimed elsewhere.
"""
import builtins
import errno
import gc
import io
import os
import random
import resource
import shutil
import stat as _stat
import subprocess
import sys
import tempfile
import time
import uuid
import warnings

from dst import sched


class SimCrash(BaseException):
    """The simulated process has been killed; nothing it does counts any more."""


_real = {}
for _n in ("open", "close", "read", "write", "stat", "lstat", "mkdir", "rmdir",
           "unlink", "remove", "rename", "replace", "listdir", "scandir", "fsync",
           "fdatasync", "truncate", "ftruncate", "utime", "chmod", "symlink",
           "link", "getpid", "urandom", "access", "readlink", "lseek", "fstat",
           "dup"):
    _real[_n] = getattr(os, _n)
_real_io_open = io.open
_real_perf = time.perf_counter

_breaches = []
_guard = {"on": False, "root": None}
FS = None


# ------------------------------------------------------------ containment
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _inside(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return True
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.normpath(os.path.join(os.getcwd(), p))
    return p == _guard["root"] or p.startswith(_guard["root"] + os.sep) or p == "/dev/null"


def _dirfd_ok(fd):
    return fd is None or fd == -1


def _audit(event, args):
    if not _guard["on"]:
        return
    bad = None
    if event == "open":
        path, _mode, flags = args[:3]
        if isinstance(path, int) or path is None:
            return
        if isinstance(flags, int) and flags & _WRITE_FLAGS and not _inside(path):
            bad = path
    elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod",
                   "os.chown", "os.utime", "os.setxattr", "os.removexattr"):
        if not isinstance(args[0], int) and not _inside(args[0]):
            bad = args[0]
    elif event in ("os.rename", "os.link"):
        if not (_inside(args[0]) and _inside(args[1])):
            bad = "%s -> %s" % (args[0], args[1])
    elif event == "os.symlink":
        if not _inside(args[1]):
            bad = args[1]
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
                   "os.spawn", "os.fork", "os.forkpty", "os.kill", "os.killpg",
                   "socket.connect", "socket.bind", "socket.getaddrinfo",
                   "ctypes.dlopen", "signal.pthread_kill"):
        if event == "ctypes.dlopen":
            return
        bad = args[:1]
    if bad is not None:
        _breaches.append("%s %s" % (event, bad))
        raise PermissionError(errno.EPERM, "denied by the simulator: %s %s" % (event, bad))


def breaches():
    return list(_breaches)


# ------------------------------------------------------------ simulated FS
class Proc(object):
    """A simulated process: its identity and the faults it will meet."""

    def __init__(self, pid, name="p"):
        self.pid = pid
        self.name = name
        self.dead = False
        self.ops = 0
        self.faults = []
        self.fired = []
        self.rev = 0

    def arm(self, faults):
        self.faults = [dict(f, left=int(f.get("nth", 0))) for f in faults]


MUT = frozenset(("open_w", "write", "mkdir", "unlink", "rmdir", "rename", "truncate",
                 "utime", "chmod", "symlink", "link", "close_w"))


class SimFS(object):
    def __init__(self, ctx, root):
        self.ctx = ctx
        self.root = root
        self.procs = [Proc(4000)]
        self.current = self.procs[0]
        self.fds = {}
        self.scheduler = None
        self.chunks = None          # sizes of successive raw reads, cycled
        self.chunk_i = 0
        self.bufsize = None
        self.clock_ns = 1500000000 * 10**9
        self.dirty = {}             # path -> durable length (files not synced)
        self.created = set()
        self.callbacks = {}
        self.trace_ops = False
        self.max_ops = 200000
        self.nops = 0
        self.meminfo = None
        self.counts = {}
        self.quiet_roles = ()
        self.open_files = {}
        self.on_op = None           # called with (operation, path) before each one

    # -- identity
    def proc(self):
        if self.scheduler is not None:
            me = self.scheduler.me()
            if me is not None and me < len(self.procs):
                return self.procs[me]
        return self.current

    def new_proc(self, pid=None):
        p = Proc(pid or 4000 + len(self.procs))
        self.procs.append(p)
        return p

    def abspath(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.normpath(os.path.join(os.getcwd(), p))

    def simulated(self, p):
        return p is not None and (p == self.root or p.startswith(self.root + os.sep))

    def role(self, p):
        rel = p[len(self.root) + 1:]
        parts = rel.split(os.sep)
        for i, part in enumerate(parts):
            if part.startswith(".") and part.endswith(".cache"):
                return "cache"
        top = parts[0]
        return top or "root"

    def tick(self, ns=1000):
        self.clock_ns += ns

    # -- one operation
    def op(self, name, path):
        """Called before an operation takes effect. Returns a data fault or None."""
        p = self.proc()
        if p.dead:
            raise SimCrash()
        self.nops += 1
        if self.nops > self.max_ops:
            raise sched.Deadlock("file operation budget used up")
        role = self.role(path)
        self.tick()
        self.ctx.log("op", p.pid, name, role, path[len(self.root):])
        if self.on_op is not None:
            self.on_op(name, path)
        if self.scheduler is not None and self.scheduler.fs_steps and \
                role not in self.quiet_roles:
            self.scheduler.point(name + ":" + role)
            if p.dead:
                raise SimCrash()
        p.ops += 1
        key = name + ":" + role
        self.counts[key] = self.counts.get(key, 0) + 1
        return self._faults(p, name, role, path)

    def _faults(self, p, name, role, path):
        data = None
        for f in list(p.faults):
            fop = f.get("op", "any")
            if fop != "any" and fop != name and not (fop == "mut" and name in MUT) and \
                    not (isinstance(fop, list) and name in fop):
                continue
            frole = f.get("role", "any")
            if frole != "any" and frole != role and \
                    not (isinstance(frole, list) and role in frole):
                continue
            if "file" in f and f["file"] not in os.path.basename(path):
                continue
            if f["left"] > 0:
                f["left"] -= 1
                continue
            if not f.get("sticky"):
                p.faults.remove(f)
            kind = f["kind"]
            if kind == "short" and name not in ("read", "write"):
                continue
            p.fired.append((kind, name, role))
            self.ctx.fault("%s@%s:%s" % (kind, name, role))
            self.ctx.log("FAULT", kind, name, role, path[len(self.root):])
            if kind in ("kill", "power"):
                if name == "write":
                    data = f
                    continue
                p.dead = True
                raise SimCrash()
            elif kind == "intr":
                raise KeyboardInterrupt("simulated")
            elif kind == "mem":
                raise MemoryError("simulated")
            elif kind == "short":
                data = f
            elif kind == "call":
                self.callbacks[f["fn"]](f)
            else:
                eno = getattr(errno, kind)
                if name == "write" and kind in ("ENOSPC", "EDQUOT", "EFBIG", "EIO"):
                    data = f
                else:
                    raise OSError(eno, os.strerror(eno), path)
        return data

    # -- durability bookkeeping
    def wrote(self, path):
        if path not in self.dirty:
            self.dirty[path] = 0

    def power_loss(self, choices):
        """What is left of files that were not synced. choices: ints, cycled."""
        i = 0
        for path in sorted(self.dirty):
            try:
                st = _real["lstat"](path)
            except OSError:
                continue
            if not _stat.S_ISREG(st.st_mode):
                continue
            c = choices[i % len(choices)] if choices else 0
            i += 1
            kind, arg = c % 5, (c // 5) % 101
            size = st.st_size
            if kind == 0:
                continue
            elif kind == 1:
                keep = size * arg // 100
                _real["truncate"](path, keep)
                self.ctx.fault("powerloss-truncated")
            elif kind == 2:
                _real["truncate"](path, 0)
                self.ctx.fault("powerloss-empty")
            elif kind == 3:
                keep = size * arg // 100
                _real["truncate"](path, keep)
                _real["truncate"](path, size)
                self.ctx.fault("powerloss-zeroed-tail")
            elif kind == 4 and path in self.created:
                _real["unlink"](path)
                self.ctx.fault("powerloss-missing")
            self.ctx.log("power", kind, arg, path[len(self.root):])
        self.dirty.clear()
        self.created.clear()

    def stamp(self, path):
        try:
            _real["utime"](path, ns=(self.clock_ns, self.clock_ns), follow_symlinks=False)
        except OSError:
            pass

    def next_chunk(self, want):
        if not self.chunks:
            return want
        c = self.chunks[self.chunk_i % len(self.chunks)]
        self.chunk_i += 1
        if c < want:
            self.ctx.fault("short-read")
        return max(1, min(want, c))


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, path, readable, writable, append, name, closefd=True):
        self._fs, self._fd, self._path = fs, fd, path
        self._r, self._w, self._a = readable, writable, append
        self._proc = fs.proc()
        self._wrote = False
        self._closefd = closefd
        self.name = name
        fs.fds[fd] = path
        fs.open_files[id(self)] = path

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        mv = memoryview(b).cast("B")
        f = self._fs.op("read", self._path)
        want = len(mv)
        if want == 0:
            return 0
        n = self._fs.next_chunk(want)
        if f is not None and f["kind"] == "short":
            n = max(1, int(n * f.get("frac", 0.5)))
        data = _real["read"](self._fd, n)
        mv[:len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        mv = memoryview(b).cast("B")
        f = self._fs.op("write", self._path)
        n = len(mv)
        self._wrote = True
        self._fs.wrote(self._path)
        if f is not None:
            k = int(n * f.get("frac", 0.5))
            kind = f["kind"]
            if kind == "short":
                k = max(1, k)
                return _real["write"](self._fd, mv[:k])
            if k:
                _real["write"](self._fd, mv[:k])
            if kind in ("kill", "power"):
                self._fs.proc().dead = True
                raise SimCrash()
            eno = getattr(errno, kind)
            raise OSError(eno, os.strerror(eno), self._path)
        return _real["write"](self._fd, mv)

    def seek(self, off, whence=0):
        return _real["lseek"](self._fd, off, whence)

    def tell(self):
        return _real["lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.op("truncate", self._path)
        _real["ftruncate"](self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._w and not self._proc.dead:
                if self._wrote:
                    self._fs.stamp(self._path)
                self._fs.op("close_w", self._path)
        finally:
            self._fs.fds.pop(self._fd, None)
            self._fs.open_files.pop(id(self), None)
            if self._closefd:
                try:
                    _real["close"](self._fd)
                except OSError:
                    pass
            super().close()


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    fs = FS
    if fs is None:
        return _real_io_open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    path = fs.abspath(file)
    if path == "/proc/meminfo" and fs.meminfo is not None:
        return fs.meminfo()
    if not fs.simulated(path):
        return _real_io_open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    binary = "b" in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take encoding, errors or newline")
    base = mode.replace("b", "").replace("t", "").replace("U", "")
    plus = "+" in base
    kind = base.replace("+", "")
    if kind not in ("r", "w", "a", "x"):
        raise ValueError("invalid mode: %r" % mode)
    readable = kind == "r" or plus
    writable = kind != "r" or plus
    flags = os.O_CLOEXEC
    if readable and writable:
        flags |= os.O_RDWR
    elif writable:
        flags |= os.O_WRONLY
    if kind == "w":
        flags |= os.O_CREAT | os.O_TRUNC
    elif kind == "x":
        flags |= os.O_CREAT | os.O_EXCL
    elif kind == "a":
        flags |= os.O_CREAT | os.O_APPEND
    if isinstance(file, int):
        fd = file
        path = fs.fds.get(fd)
    elif opener is not None:
        fd = opener(file, flags)
        path = fs.fds.get(fd, path)
    else:
        existed = _exists(path)
        fs.op("open_w" if writable else "open_r", path)
        fd = _real["open"](path, flags, 0o666)
        if _stat.S_ISDIR(_real["fstat"](fd).st_mode):
            _real["close"](fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        if writable:
            if not existed:
                fs.created.add(path)
            if kind in ("w", "x"):
                fs.wrote(path)
                fs.stamp(path)
    raw = SimRaw(fs, fd, path, readable, writable, kind == "a", file, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else (fs.bufsize or io.DEFAULT_BUFFER_SIZE)
    if readable and writable:
        buf = io.BufferedRandom(raw, size)
    elif writable:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def _exists(path):
    try:
        _real["lstat"](path)
        return True
    except OSError:
        return False


# ------------------------------------------------------------ os functions
def _one(name, opname, mutates=False):
    real = _real[name]

    def fn(path, *a, **k):
        fs = FS
        p = fs.abspath(path) if fs is not None and k.get("dir_fd") is None else None
        if fs is None or not fs.simulated(p):
            return real(path, *a, **k)
        fs.op(opname, p)
        out = real(path, *a, **k)
        if mutates:
            if opname == "mkdir":
                fs.stamp(p)
            if opname in ("unlink",):
                fs.dirty.pop(p, None)
                fs.created.discard(p)
        return out
    fn.__name__ = name
    return fn


def _two(name, opname):
    real = _real[name]

    def fn(src, dst, *a, **k):
        fs = FS
        if fs is None or k.get("src_dir_fd") is not None or k.get("dst_dir_fd") is not None:
            return real(src, dst, *a, **k)
        p = fs.abspath(dst)
        if not fs.simulated(p):
            return real(src, dst, *a, **k)
        fs.op(opname, p)
        out = real(src, dst, *a, **k)
        if opname == "rename":
            s = fs.abspath(src)
            for old in [x for x in list(fs.dirty) if x == s or x.startswith(s + os.sep)]:
                fs.dirty[p + old[len(s):]] = fs.dirty.pop(old)
            for old in [x for x in list(fs.created) if x == s or x.startswith(s + os.sep)]:
                fs.created.discard(old)
                fs.created.add(p + old[len(s):])
        return out
    fn.__name__ = name
    return fn


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = FS
    p = fs.abspath(path) if fs is not None and dir_fd is None else None
    if fs is None or not fs.simulated(p):
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    existed = _exists(p)
    fs.op("open_w" if w else "open_r", p)
    fd = _real["open"](path, flags, mode)
    fs.fds[fd] = p
    if w:
        if not existed:
            fs.created.add(p)
            fs.wrote(p)
        fs.stamp(p)
    return fd


def _os_close(fd):
    if FS is not None:
        FS.fds.pop(fd, None)
    return _real["close"](fd)


def _os_read(fd, n):
    fs = FS
    if fs is not None and fd in fs.fds:
        f = fs.op("read", fs.fds[fd])
        n = fs.next_chunk(n)
        if f is not None and f["kind"] == "short":
            n = max(1, int(n * f.get("frac", 0.5)))
    return _real["read"](fd, n)


def _os_write(fd, data):
    fs = FS
    if fs is not None and fd in fs.fds:
        path = fs.fds[fd]
        f = fs.op("write", path)
        fs.wrote(path)
        if f is not None:
            k = int(len(data) * f.get("frac", 0.5))
            if f["kind"] == "short":
                return _real["write"](fd, data[:max(1, k)])
            if k:
                _real["write"](fd, data[:k])
            if f["kind"] in ("kill", "power"):
                fs.proc().dead = True
                raise SimCrash()
            eno = getattr(errno, f["kind"])
            raise OSError(eno, os.strerror(eno), path)
    return _real["write"](fd, data)


def _os_fsync(fd):
    fs = FS
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if fs is not None and fd in fs.fds:
        fs.op("fsync", fs.fds[fd])
        fs.dirty.pop(fs.fds[fd], None)
        return None
    return None


def _listdir(path="."):
    fs = FS
    p = fs.abspath(path) if fs is not None else None
    if fs is None or not fs.simulated(p):
        return _real["listdir"](path)
    fs.op("listdir", p)
    return sorted(_real["listdir"](path))


class _SortedScan(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self._it = iter(())


def _scandir(path="."):
    fs = FS
    p = fs.abspath(path) if fs is not None else None
    if fs is None or not fs.simulated(p):
        return _real["scandir"](path)
    fs.op("listdir", p)
    with _real["scandir"](path) as it:
        return _SortedScan(sorted(it, key=lambda e: e.name))


# ------------------------------------------------------------ subprocess
class SimPopen(object):
    """Stands in for every child process; the program is a python function."""

    programs = {}
    history = []

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        self.args = args
        self.pid = 70000 + len(SimPopen.history)
        argv = args.split() if isinstance(args, str) else [os.fspath(a) for a in args]
        prog = os.path.basename(argv[0])
        SimPopen.history.append(argv)
        if FS is not None:
            FS.ctx.log("popen", " ".join(a.replace(FS.root, "") for a in argv))
            if FS.proc().dead:
                raise SimCrash()
        fn = self.programs.get(prog)
        if fn is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        self._text = bool(text or encoding or errors or universal_newlines)
        self.returncode = None
        out, err, rc = fn(argv)         # may raise OSError, as execve does
        self._rc = rc
        self._files = []
        self.stdin = None
        self.stdout = self._sink(stdout, out)
        self.stderr = self._sink(stderr, err)

    def _sink(self, target, data):
        if target == subprocess.PIPE:
            raw = io.BytesIO(data)
            return io.TextIOWrapper(raw, "utf-8") if self._text else raw
        if target in (None, subprocess.DEVNULL, subprocess.STDOUT):
            return None
        fd = target if isinstance(target, int) else target.fileno()
        try:
            while data:
                n = os.write(fd, data)
                data = data[n:]
        except OSError:
            self._rc = 1            # the child meets the error, not its parent
        return None

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        self.returncode = self._rc
        return out, err

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self.returncode

    def poll(self):
        self.returncode = self._rc
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


# ------------------------------------------------------------ install
class _Names(object):
    """Deterministic names for temporary files."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "sim%06d" % self.n


def enter_child(ctx):
    global FS
    root = ctx.dir
    for sub in ("tmp", "traces", "home"):
        _real["mkdir"](os.path.join(root, sub))
    os.environ["HOME"] = os.path.join(root, "home")
    os.environ["TMPDIR"] = os.path.join(root, "tmp")
    os.chdir(os.path.join(root, "home"))
    fs = SimFS(ctx, root)
    ctx.fs = fs

    gc.disable()
    warnings.simplefilter("ignore")
    os.umask(0o022)

    # randomness and identity
    rnd = random.Random("simulated urandom")
    random.seed(12345)
    try:
        import numpy
        numpy.random.seed(12345)
    except ImportError:
        pass
    os.urandom = lambda n: bytes(rnd.getrandbits(8) for _ in range(n))
    os.getpid = lambda: fs.proc().pid
    counter = [0]

    def uuid4():
        counter[0] += 1
        return uuid.UUID(int=(rnd.getrandbits(128) & ~(0xf << 76) & ~(3 << 62))
                         | (4 << 76) | (2 << 62))
    uuid.uuid4 = uuid4
    uuid.uuid1 = lambda node=None, clock_seq=None: uuid4()

    # clocks: each reading advances simulated time a little
    def now_ns():
        fs.clock_ns += 100
        return fs.clock_ns
    time.time_ns = now_ns
    time.time = lambda: now_ns() / 1e9
    time.perf_counter = lambda: now_ns() / 1e9
    time.perf_counter_ns = now_ns
    time.monotonic = lambda: now_ns() / 1e9
    time.monotonic_ns = now_ns

    def sleep(s):
        fs.clock_ns += int(s * 1e9)
        if fs.scheduler is not None:
            fs.scheduler.point("sleep")
    time.sleep = sleep

    # files
    builtins.open = _sim_open
    io.open = _sim_open
    for name, opname in (("stat", "stat"), ("lstat", "stat"), ("access", "stat"),
                         ("readlink", "stat")):
        setattr(os, name, _one(name, opname))
    for name, opname in (("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"),
                         ("remove", "unlink"), ("truncate", "truncate"),
                         ("utime", "utime"), ("chmod", "chmod")):
        setattr(os, name, _one(name, opname, True))
    for name, opname in (("rename", "rename"), ("replace", "rename"),
                         ("symlink", "symlink"), ("link", "link")):
        setattr(os, name, _two(name, opname))
    os.open, os.close, os.read, os.write = _os_open, _os_close, _os_read, _os_write
    os.fsync = _os_fsync
    os.fdatasync = _os_fsync
    os.listdir, os.scandir = _listdir, _scandir
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    tempfile.tempdir = os.path.join(root, "tmp")
    tempfile._name_sequence = _Names()
    subprocess.Popen = SimPopen
    resource.getrusage = lambda who: _Rusage(1000)

    _guard["root"] = root
    _guard["on"] = True
    sys.addaudithook(_audit)
    FS = fs


class _Rusage(object):
    def __init__(self, rss):
        self.ru_maxrss = rss
        self.ru_utime = self.ru_stime = 0.0


def leave_child():
    global FS
    _guard["on"] = False
    FS = None
