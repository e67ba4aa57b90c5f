"""The simulated machine: disk, clock, locale, randomness, crashes.

The library runs unmodified.  Everything it can observe of the outside world goes through seams
that this module owns while a simulated run is in progress: `open`/`io.open` (and through them
pathlib, tempfile, codecs), the file related functions of `os`, `time`/`datetime`, the platform's
default text encoding and line ending, `os.urandom`/`random`.  Files live in a scratch directory
(the simulated disk); every stat, open, read, write, close, ... is an *event* at which the fault
plan of the scenario may strike and at which the thread scheduler may switch.

Nothing here draws random numbers: all decisions are in the scenario.
"""

import base64
import builtins
import collections
import datetime as _datetime
import errno
import gc
import hashlib
import io
import locale
import os
import random
import shutil
import stat as _stat
import sys
import tempfile
import threading
import time as _time

from . import loader

REAL = {
    'open': builtins.open, 'stat': os.stat, 'lstat': os.lstat, 'os_open': os.open, 'os_write': os.write,
    'os_close': os.close, 'replace': os.replace, 'rename': os.rename, 'unlink': os.unlink, 'remove': os.remove,
    'fsync': os.fsync, 'truncate': os.truncate, 'ftruncate': os.ftruncate, 'mkdir': os.mkdir,
    'rmdir': os.rmdir, 'link': os.link, 'symlink': os.symlink, 'urandom': os.urandom,
    'TextIOWrapper': io.TextIOWrapper, 'datetime': _datetime.datetime, 'time': _time.time,
    'gmtime': _time.gmtime, 'localtime': _time.localtime, 'ctime': _time.ctime, 'strftime': _time.strftime,
    'time_ns': _time.time_ns, 'monotonic': _time.monotonic, 'perf_counter': _time.perf_counter,
    'sleep': _time.sleep, 'getpreferredencoding': locale.getpreferredencoding,
    'getencoding': getattr(locale, 'getencoding', None), 'linesep': os.linesep,
    'Lock': threading.Lock, 'RLock': threading.RLock,
}

ERR = {n: getattr(errno, n) for n in ('EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EMFILE', 'ENOENT', 'EISDIR',
                                      'EROFS', 'EPERM', 'ESTALE', 'ENOMEM', 'EBUSY', 'EFBIG')}


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimStuck(BaseException):
    """The operation has used up the number of events it was given."""


class Interrupt(KeyboardInterrupt):
    """A signal arriving at an arbitrary point."""


class NoMemory(MemoryError):
    """A failing allocation at an arbitrary point."""


EXC = {'interrupt': Interrupt, 'nomem': NoMemory}


CURRENT = None      # the world of this run
ACTIVE = []         # worlds whose seams are installed, innermost last
PRISTINE = []       # unused incarnations of the library, see prepare()
SPARES = 4


def import_library():
    from . import sched
    threading.Lock, threading.RLock = sched.SimLock, sched.SimRLock
    try:
        return loader.incarnate()
    finally:
        threading.Lock, threading.RLock = REAL['Lock'], REAL['RLock']


class _Innermost:
    """Stands for the world in force, so that a seam the library got hold of at import time (`from os import replace`) works in all of them."""

    def __getattr__(self, name):
        return getattr(ACTIVE[-1], name)

    def __setattr__(self, name, value):
        setattr(ACTIVE[-1], name, value)


def prepare():
    """Import the library a few times, on a machine whose clock shows a fixed time, for the first processes of each run."""
    del PRISTINE[:]
    with World({'now': 1.6e9}) as w:
        for _ in range(SPARES):
            PRISTINE.append((import_library(), loader.modules()))
    loader.purge()
    return w


class SimFileIO(io.FileIO):
    """A file of the simulated disk."""

    def __init__(self, world, path, mode, closefd=True, opener=None):
        self._w = None
        super().__init__(path, mode, closefd, opener)
        self._w = world
        self._rel = world.rel(path)
        self._writes = self.writable()
        self._size_at_open = 0
        world.handles[id(self)] = self

    def readinto(self, b):
        w = self._w
        f = w.event('read', self._rel)
        n = len(b)
        if w.max_read:
            n = min(n, w.max_read)
        if f:
            if f['do'] == 'EINTR':
                pass            # a signal without an exception: FileIO retries by itself (PEP 475)
            elif f['do'] == 'short':
                n = min(n, max(1, f.get('keep', 1)))
            else:
                w.raise_fault(f, self._rel)
        mv = memoryview(b).cast('B')[:n]
        return super().readinto(mv)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return None if n is None else bytes(b[:n])

    def readall(self):
        out = bytearray()
        size = self._w.max_read or 65536
        while True:
            b = bytearray(size)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def write(self, b):
        w = self._w
        data = memoryview(b).cast('B')
        n = len(data)
        if w.dead:
            return n
        f = w.event('write', self._rel)
        if f:
            do = f['do']
            if do == 'EINTR':
                pass
            elif do == 'short':
                n = min(n, max(1, f.get('keep', 1)))
            else:
                keep = min(n, int(f.get('frac', 0) * n) if 'frac' in f else f.get('keep', 0))
                if keep:
                    super().write(data[:keep])
                w.raise_fault(f, self._rel)
        if w.max_write:
            n = min(n, w.max_write)
        return super().write(data[:n])

    def truncate(self, size=None):
        if self._w.dead:
            return 0
        f = self._w.event('write', self._rel)
        if f and f['do'] not in ('EINTR', 'short'):
            self._w.raise_fault(f, self._rel)
        return super().truncate(size)

    def close(self):
        w = self._w
        if self.closed or w is None:
            return super().close()
        f = None
        if not w.dead:
            try:
                f = w.event('close_w' if self._writes else 'close_r', self._rel)
            except BaseException:
                w.handles.pop(id(self), None)
                super().close()
                raise
        w.handles.pop(id(self), None)
        if f and f['do'] == 'lost':
            # delayed allocation failure: the kernel reports at close that it dropped the tail
            size = os.fstat(self.fileno()).st_size
            REAL['ftruncate'](self.fileno(), int(size * f.get('frac', 0)))
            super().close()
            w.raised = OSError(errno.EIO, 'simulated EIO at close, data lost', self._rel)
            w.raised_all.append(w.raised)
            raise w.raised
        super().close()
        if f:
            w.raise_fault(f, self._rel)


class World:
    def __init__(self, env=None):
        env = env or {}
        self.root = tempfile.mkdtemp(prefix=f'kisim-{os.getpid()}-')
        self.base = os.path.realpath(self.root)
        self.disk = os.path.join(self.base, 'disk')
        for d in ('disk', 'tmp', 'home'):
            REAL['mkdir'](os.path.join(self.base, d))
        self.locale = env.get('locale', 'utf-8')
        self.linesep = env.get('linesep', '\n')
        self.now = env.get('now', 1700000000.0)
        self.start = self.now
        self.tz = env.get('tz', 'UTC0')
        self.bufsize = env.get('bufsize') or io.DEFAULT_BUFFER_SIZE
        self.max_read = env.get('max_read') or 0
        self.max_write = env.get('max_write') or 0
        self.entropy = random.Random(env.get('entropy', 0))
        self.dead = False
        self.plan = []
        self.raised, self.raised_all = None, []
        self.handles = {}
        self.fired = collections.Counter()
        self.fired_now = []
        self.log = hashlib.sha256()
        self.nevents = 0
        self.left = None            # events the operation in progress may still cause
        self.slept = 0.0
        self.sched = None
        self.actors = None          # callback(action) for external actors
        self.lib = None
        self.crashes = 0
        self.restarts = 0
        self.probes = collections.Counter()
        self.escaped = []

    # -- paths ---------------------------------------------------------------------------------
    def abspath(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.join(os.getcwd(), p)

    def inside(self, p):
        if isinstance(p, int):
            return False
        a = self.abspath(p)
        return a is not None and (a + os.sep).startswith(self.base + os.sep)

    def rel(self, p):
        if isinstance(p, int):
            return f'fd'
        a = os.path.normpath(self.abspath(p))
        return a[len(self.base) + 1:] if a.startswith(self.base) else a

    # -- events and faults -----------------------------------------------------------------------
    def event(self, op, rel):
        self.nevents += 1
        self.now += 0.001
        self.spend()
        self.log.update(f'{op} {rel};'.encode('utf-8', 'surrogatepass'))
        if self.sched is not None:
            self.sched.point()
        hit = None
        for f in self.plan:
            if f.get('spent') or not (f['on'] == op or (f['on'] == 'any')):
                continue
            if f.get('path') and f['path'] != rel:
                continue
            if f['_n'] > 0:
                f['_n'] -= 1
                continue
            if hit is None:
                if not f.get('sticky'):
                    f['spent'] = True
                hit = f
        if hit is None:
            return None
        self.log.update(f'!{hit["do"]};'.encode())
        self.fired[f'{op}:{hit["do"]}'] += 1
        self.fired_now.append((op, hit['do'], rel))
        if hit['do'] == 'actor':
            for a in hit['acts']:
                self.act(a)
            return None
        if hit['do'] == 'delay':
            self.now = min(max(1.0, self.now + hit.get('dt', 60.0)), 1e11)      # (datetime ends with the year 9999)
            return None
        return hit

    def spend(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise SimStuck()

    def raise_fault(self, f, rel):
        do = f['do']
        if do == 'crash':
            self.crashes += 1
            self.dead = True
            raise SimCrash()
        if do in EXC:
            e = EXC[do]('simulated')
            self.raised = e
            self.raised_all.append(e)
            raise e
        e = OSError(ERR.get(do, errno.EIO), f'simulated {do}', rel)
        self.raised = e
        self.raised_all.append(e)
        raise e

    def arm(self, faults):
        self.plan = []
        self.fired_now = []
        self.raised = None
        self.raised_all = []
        for f in faults or ():
            f = dict(f)
            f['_n'] = f.get('nth', 0)
            self.plan.append(f)

    def disarm(self):
        self.plan = []

    def fatal_fired(self):
        """Faults that fired in the last call and that no caller may overlook."""
        return [x for x in self.fired_now if x[1] not in ('short', 'EINTR', 'actor', 'delay')]

    # -- external actors (other programs using the same disk) --------------------------------------
    def act(self, a):
        p = os.path.join(self.disk, a['path'])
        do = a['act']
        if do == 'write':
            self.ext_remove(p)
            self.put(a['path'], a['data'] if isinstance(a['data'], bytes) else base64.b64decode(a['data']))
        elif do == 'remove':
            self.ext_remove(p)
        elif do == 'alternate':
            self.turn = not getattr(self, 'turn', False)
            self.ext_remove(p)
            self.put(a['path'], a['data'][self.turn])
        elif do == 'grow':
            if len(self.get(a['path']) or b'') < a['up_to']:
                with REAL['open'](p, 'ab') as f:
                    f.write(b'\n')
        elif do == 'touch':
            if os.path.isfile(p):
                os.utime(p, (self.now, self.now))
        elif do == 'mkdir':
            self.ext_remove(p)
            REAL['mkdir'](p)
        elif do == 'fifo':
            self.ext_remove(p)
            os.mkfifo(p)
        elif do == 'symlink':
            self.ext_remove(p)
            REAL['symlink'](a['to'], p)
        elif do == 'truncate':
            if os.path.isfile(p):
                REAL['truncate'](p, int(REAL['stat'](p).st_size * a.get('frac', 0.5)))
        else:
            raise ValueError(do)

    @staticmethod
    def ext_remove(p):
        try:
            st = REAL['lstat'](p)
        except OSError:
            return
        if _stat.S_ISDIR(st.st_mode):
            shutil.rmtree(p)
        else:
            REAL['unlink'](p)

    def put(self, rel, data, keep_times=False):
        """Write a file behind the library's back."""
        p = os.path.join(self.disk, rel)
        st = None
        if keep_times:
            try:
                st = REAL['stat'](p)
            except OSError:
                pass
        with REAL['open'](p, 'wb') as f:
            f.write(data)
        if st is not None:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))

    def get(self, rel):
        try:
            with REAL['open'](os.path.join(self.disk, rel), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def snapshot(self):
        """Content of the whole simulated disk (including temp and home directories)."""
        out = {}
        for d, dirs, files in os.walk(self.base):
            for n in dirs:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    out[os.path.relpath(p, self.base)] = ('link', os.readlink(p))
                else:
                    out[os.path.relpath(p, self.base)] = ('dir',)
            for n in files:
                p = os.path.join(d, n)
                st = REAL['lstat'](p)
                r = os.path.relpath(p, self.base)
                if _stat.S_ISLNK(st.st_mode):
                    out[r] = ('link', os.readlink(p))
                elif _stat.S_ISREG(st.st_mode):
                    with REAL['open'](p, 'rb') as f:
                        out[r] = ('file', f.read())
                else:
                    out[r] = ('special', _stat.S_IFMT(st.st_mode))
        return out

    @staticmethod
    def changed(a, b):
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))

    # -- processes ---------------------------------------------------------------------------------
    def boot(self, jump=0.0):
        """Start a (new) process: the library is imported afresh, everything in memory is gone."""
        self.now += 1.0 + jump
        if self.now < 1:
            self.now = 1.0
        self.dead = False
        for h in list(self.handles.values()):
            h._w = None
        self.handles.clear()
        self.disarm()
        global CURRENT
        CURRENT = self
        if PRISTINE and (self.locale, self.linesep) == ('utf-8', '\n'):
            # the first processes of a run: imported before the run was forked off, never used since
            self.lib, modules = PRISTINE.pop()
            loader.purge()
            sys.modules.update(modules)
        else:
            self.lib = import_library()
        self.restarts += 1
        return self.lib

    def open_handles(self):
        return sorted(h._rel for h in self.handles.values() if not h.closed)

    # -- installing the seams ------------------------------------------------------------------------
    def __enter__(self):
        w = _Innermost()
        ACTIVE.append(self)
        self.cwd0 = os.getcwd()
        os.chdir(self.disk)
        self._tempdir0 = tempfile.tempdir
        tempfile.tempdir = os.path.join(self.base, 'tmp')
        self._env0 = {k: os.environ.get(k) for k in ('HOME', 'TMPDIR', 'TEMP', 'TMP', 'XDG_CACHE_HOME', 'TZ')}
        self.set_tz(self.tz)
        os.environ['HOME'] = os.path.join(self.base, 'home')
        os.environ['TMPDIR'] = os.path.join(self.base, 'tmp')
        for k in ('TEMP', 'TMP', 'XDG_CACHE_HOME'):
            os.environ.pop(k, None)

        class SimTextIOWrapper(REAL['TextIOWrapper']):
            def __init__(self, buffer, encoding=None, errors=None, newline=None, *a, **k):
                if encoding is None or encoding == 'locale':
                    encoding = w.locale
                super().__init__(buffer, encoding, errors, newline, *a, **k)

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            simulated = isinstance(file, int) or w.inside(file)
            if not simulated:
                if any(c in mode for c in 'wax+') and os.path.realpath(w.abspath(file)) != '/dev/null':
                    w.escaped.append(str(file))
                    raise PermissionError(errno.EACCES, 'outside of the simulated disk', str(file))
                return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            return w.sim_open(SimTextIOWrapper, file, mode, buffering, encoding, errors, newline, closefd, opener)

        def wrap(name, op, paths=1):
            real = REAL[name]

            def f(*a, **k):
                ps = [x for x in a[:paths]]
                if not all(isinstance(x, int) or w.inside(x) for x in ps):
                    if op != 'stat':
                        if any(not isinstance(x, int) and not w.inside(x) for x in ps):
                            w.escaped.append(repr(ps))
                            raise PermissionError(errno.EACCES, 'outside of the simulated disk')
                    return real(*a, **k)
                if w.dead:
                    raise SimCrash()
                if op != 'fd':
                    flt = w.event(op, w.rel(ps[0]) if ps else '')
                    if flt:
                        w.raise_fault(flt, str(ps[0]) if ps else '')
                return real(*a, **k)
            f.__name__ = name
            return f

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is None and w.inside(path):
                if w.dead:
                    raise SimCrash()
                op = 'open_w' if flags & (os.O_WRONLY | os.O_RDWR) else 'open_r'
                flt = w.event(op, w.rel(path))
                if flt:
                    w.raise_fault(flt, w.rel(path))
            elif flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                w.escaped.append(str(path))
                raise PermissionError(errno.EACCES, 'outside of the simulated disk', str(path))
            return REAL['os_open'](path, flags, mode) if dir_fd is None else REAL['os_open'](path, flags, mode, dir_fd=dir_fd)

        def sim_os_write(fd, data):
            if fd in (1, 2):
                return REAL['os_write'](fd, data)
            if w.dead:
                return len(data)
            flt = w.event('write', 'fd')
            n = len(data)
            if flt:
                if flt['do'] == 'EINTR':
                    pass
                elif flt['do'] == 'short':
                    n = min(n, max(1, flt.get('keep', 1)))
                else:
                    keep = min(n, int(flt.get('frac', 0) * n) if 'frac' in flt else flt.get('keep', 0))
                    if keep:
                        REAL['os_write'](fd, data[:keep])
                    w.raise_fault(flt, 'fd')
            return REAL['os_write'](fd, data[:n])

        class SimDatetime(REAL['datetime']):
            @classmethod
            def now(cls, tz=None):
                return REAL['datetime'].fromtimestamp(w.now, tz)

            @classmethod
            def utcnow(cls):
                return REAL['datetime'].fromtimestamp(w.now, _datetime.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        patches = [
            (builtins, 'open', sim_open), (io, 'open', sim_open), (io, 'TextIOWrapper', SimTextIOWrapper),
            (os, 'stat', wrap('stat', 'stat')), (os, 'open', sim_os_open), (os, 'write', sim_os_write),
            (os, 'replace', wrap('replace', 'replace', 2)), (os, 'rename', wrap('rename', 'replace', 2)),
            (os, 'unlink', wrap('unlink', 'unlink')), (os, 'remove', wrap('remove', 'unlink')),
            (os, 'fsync', wrap('fsync', 'fsync', 0)), (os, 'truncate', wrap('truncate', 'write')),
            (os, 'mkdir', wrap('mkdir', 'mkdir')), (os, 'rmdir', wrap('rmdir', 'unlink')),
            (os, 'link', wrap('link', 'replace', 2)), (os, 'symlink', wrap('symlink', 'replace', 2)),
            (os, 'urandom', lambda n: w.entropy.randbytes(n)), (os, 'linesep', w.linesep),
            (_datetime, 'datetime', SimDatetime),
            (_time, 'time', lambda: w.now), (_time, 'time_ns', lambda: int(w.now * 1e9)),
            (_time, 'monotonic', lambda: w.now), (_time, 'perf_counter', lambda: w.now),
            (_time, 'sleep', lambda s: w.sleep(s)),
            (_time, 'gmtime', lambda s=None: REAL['gmtime'](w.now if s is None else s)),
            (_time, 'localtime', lambda s=None: REAL['localtime'](w.now if s is None else s)),
            (_time, 'ctime', lambda s=None: REAL['ctime'](w.now if s is None else s)),
            (_time, 'strftime', lambda f, t=None: REAL['strftime'](f, REAL['localtime'](w.now) if t is None else t)),
            (locale, 'getpreferredencoding', lambda do_setlocale=True: w.locale),
        ]
        if REAL['getencoding']:
            patches.append((locale, 'getencoding', lambda: w.locale))
        self._saved = [(m, n, getattr(m, n)) for m, n, _ in patches]
        for m, n, v in patches:
            setattr(m, n, v)
        self._random0 = random.getstate()
        random.seed(self.entropy.random())
        self._filters = sys.modules.get('warnings').filters[:] if 'warnings' in sys.modules else None
        return self

    def set_tz(self, tz):
        """Move the machine to another time zone (POSIX notation)."""
        self.tz = tz
        os.environ['TZ'] = tz
        _time.tzset()

    def sleep(self, s):
        self.now += s
        self.slept += s
        self.spend()
        if self.sched is not None:
            self.sched.point()

    def __exit__(self, *exc):
        if len(ACTIVE) > 1:
            ACTIVE.remove(self)         # (the last one stays: it answers late calls)
        for m, n, v in self._saved:
            setattr(m, n, v)
        random.setstate(self._random0)
        tempfile.tempdir = self._tempdir0
        for k, v in self._env0.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        _time.tzset()
        os.chdir(self.cwd0)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def sim_open(self, wrapper, file, mode, buffering, encoding, errors, newline, closefd, opener):
        if not isinstance(mode, str):
            raise TypeError(f'invalid mode: {mode!r}')
        modes = set(mode)
        if modes - set('axrwb+t') or len(mode) > len(modes):
            raise ValueError(f'invalid mode: {mode!r}')
        binary = 'b' in modes
        writing = bool(modes & set('wax+'))
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        if self.dead:
            raise SimCrash()
        if not isinstance(file, int):
            rel = self.rel(file)
            f = self.event('open_w' if writing else 'open_r', rel)
            if f:
                self.raise_fault(f, rel)
            try:
                if _stat.S_ISFIFO(REAL['stat'](file).st_mode):
                    self.probes['fifo opened'] += 1
                    raise OSError(errno.EIO, 'simulated: opening a pipe would block for ever', rel)
            except FileNotFoundError:
                pass
        raw = SimFileIO(self, file, ''.join(c for c in mode if c not in 'bt'), closefd, opener)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line = buffering == 1 and not binary
            size = self.bufsize if buffering in (-1, 1) else buffering
            if '+' in modes:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            if newline is None and writing and '+' not in modes and self.linesep != '\n':
                newline = self.linesep
            text = wrapper(buf, encoding, errors, newline, line)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise


class Outcome:
    __slots__ = ('ok', 'value', 'exc', 'exc_type', 'exc_text', 'fired', 'fatal', 'leaked', 'leaked_after', 'crashed',
                 'same_exc', 'where', 'stuck', 'spent', 'slept', 'lines')

    def __repr__(self):
        return f'<ok={self.ok} {self.exc_type or ""} {self.exc_text or ""} fired={self.fired}>'


def call(world, fn, faults=None, interrupt=None, events=None):
    """Run one library operation under a fault plan.  Never raises for anything the library does."""
    o = Outcome()
    o.ok, o.value, o.exc, o.exc_type, o.exc_text, o.crashed = False, None, None, None, None, False
    o.same_exc, o.where, o.stuck, o.lines = None, None, False, None
    world.arm(faults)
    before, slept = world.nevents, world.slept
    world.left = events
    tracer = None
    if interrupt:
        tracer = Tracer(world, interrupt)
        tracer.start()
    try:
        o.value = fn()
        o.ok = True
        o.leaked = world.open_handles()
    except SimCrash:
        o.crashed = True
        o.leaked = []
    except SimStuck:
        o.stuck = True
        o.leaked = []
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        o.exc_type = type(e).__name__
        o.exc_text = str(e)[:200]
        o.same_exc = any(e is x for x in world.raised_all)
        o.leaked = world.open_handles()
        e.__traceback__ = None
        e.__context__ = None
        e = None
    finally:
        if tracer:
            tracer.stop()
            o.lines = tracer.count
        world.left = None
    o.spent, o.slept = world.nevents - before, world.slept - slept
    o.fired = list(world.fired_now)
    o.fatal = world.fatal_fired()
    if tracer and tracer.fired:
        o.fatal.append(('line', interrupt['do'], tracer.where))
        o.where = tracer.where
    world.disarm()
    world.raised = None
    world.raised_all = []
    if o.crashed:
        # whatever the dying process still holds can no longer reach the disk
        world.dead = True
    if o.leaked:
        gc.collect()
    o.leaked_after = world.open_handles() if not o.crashed else []
    return o


class Tracer:
    """Raises an exception at the n-th executed line of the library, or counts lines."""

    def __init__(self, world, spec):
        self.world, self.spec = world, spec
        self.n = spec['line'] if spec.get('line') is not None else -1
        self.count = 0
        self.fired = False
        self.where = None

    def start(self):
        sys.settrace(self.glob)

    def stop(self):
        sys.settrace(None)

    def glob(self, frame, ev, arg):
        if ev == 'call' and loader.is_library(frame.f_code.co_filename):
            return self.local
        return None

    def local(self, frame, ev, arg):
        if ev == 'line':
            if self.count == self.n and not self.fired:
                self.fired = True
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                self.world.fired[f'line:{self.spec["do"]}'] += 1
                self.world.log.update(f'line {self.n};'.encode())
                e = EXC[self.spec['do']]('simulated')
                self.world.raised = e
                self.world.raised_all.append(e)
                self.count += 1
                raise e
            self.count += 1
        return self.local


def count_lines(world, fn):
    """How many library lines one operation executes (to place interrupts)."""
    t = Tracer(world, {'line': None})
    t.start()
    try:
        fn()
    finally:
        t.stop()
    return t.count
