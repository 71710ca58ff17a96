"""Seams: every nondeterministic or failing service the tree under test uses goes through here.

Imported (and installed) before numpy, matplotlib and pytornado.  With no active Runtime every
wrapper is a plain pass-through.  With one, each call on a path inside the simulated root is one
numbered operation: it is traced, handed to the scheduler (a possible context switch), shown to the
invariant monitors and then performed, failed, torn or turned into a crash as the fault list says.

A crash is a real one: the process leaves with os._exit, so whatever Python had buffered is lost.
"""
import builtins
import datetime as _datetime
import errno as _errno
import fnmatch
import io
import os
import pickle
import signal
import struct
import sys
import tempfile
import threading
import time
import _thread

REAL = {
    'open': builtins.open, 'time': time.time, 'time_ns': time.time_ns, 'sleep': time.sleep,
    'getpid': os.getpid, '_exit': os._exit, 'oswrite': os.write, 'osread': os.read,
    'perf': time.perf_counter,
}
CRASH_CODE = 77
MAX_OPS = 250000
MAX_LINES = 4000000

DBDIR = None       # directory of the aircraft database (read-only input, with trailing separator)
RT = None          # the active Runtime of this process


class Budget(BaseException):
    """The run made more steps than any legitimate run does: no progress."""


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------------------------------- runtime

class Runtime:
    def __init__(self, root, faults=(), knobs=None, sched=None, monitors=(), node=0, report_fd=None,
                 lines=False, inc=0, pauses=()):
        self.inc = inc          # number of this process in the history of the simulated machine
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        knobs = knobs or {}
        self.knobs = knobs
        self.bufsize = knobs.get('bufsize', 8192)
        self.clock = float(knobs.get('clock', 1.6e9))
        self.tick = float(knobs.get('tick', 0.001))
        self.clock0 = self.clock
        self.simtime = 0.0
        self.jumps = {int(k): float(v) for k, v in (knobs.get('jumps') or {}).items()}
        self.poison = knobs.get('poison')
        self.faults = [dict(f, _seen=0, _fired=0) for f in faults]
        self.sched = sched
        self.monitors = list(monitors)
        self.node = node
        self.report_fd = report_fd
        self.pauses = {}                        # (node, function) -> [lines seen, {line number: node to go on}]
        for p in pauses:
            self.pauses.setdefault((p['node'], p['func']), [0, {}])[1][p['nth']] = p['to']
        self.cover = {} if lines else None      # source function -> lines executed in it
        self.want_lines = lines or any(f['on'] == 'line' for f in self.faults) or bool(self.pauses) or \
            bool(sched is not None and sched.line_preempt)
        self.n_ops = 0
        self.at_kbd = None
        self.shown = []
        self.n_lines = 0
        self.n_alloc = 0
        self.n_kernel = 0
        self.n_lapack = 0
        self.n_render = 0
        self.n_cpacs = 0
        self.libs = []          # calls of the CPACS libraries: (name, end of the path)
        self.trace = []
        self.fired = []
        self.violations = []
        self.snaps = []         # tree at the moment a fault struck (faults with 'snap')
        self.infos = []         # what LAPACK reported
        self.fdmap = {}
        self.outside = []
        self.tmpseq = 0
        self.steps = []
        self.local = threading.local()
        self.crews = {}         # node -> threads started by the code under test

    # -- paths
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p == self.root or p.startswith(self.prefix) or (DBDIR is not None and p.startswith(DBDIR))

    def rel(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        if DBDIR is not None and p.startswith(DBDIR):
            return '@database/' + p[len(DBDIR):]
        return os.path.relpath(p, self.root)

    def cur_node(self):
        return getattr(self.local, 'node', self.node)

    # -- threads which the code under test starts
    def crew(self, make=False):
        if not self.crews and not make:
            return None
        node = self.cur_node()
        c = self.crews.get(node)
        if c is None and make:
            from . import sched
            c = self.crews[node] = sched.Crew(self.knobs.get('crew', 7 * self.inc + node))
            _lines_on()
        return c

    def spawn(self, body, args):
        node = self.cur_node()

        def enter():
            self.local.node = node
            self.local.child = True
        return self.crew(True).spawn(body, args, enter)

    def wait(self):
        """The running thread waits for something; False when it is nothing that can still happen."""
        c = self.crew()
        if c is not None and c.blocked():
            return True
        if self.sched is not None and self.sched.threads:
            self.sched.blocked(self.cur_node())
            return True
        return False

    def drain(self, end=False):
        """The interpreter (or the program) ends: wait for the threads which are not daemons."""
        c = self.crew()
        if c is None:
            return
        if end:
            for f in reversed(getattr(threading, '_threading_atexits', [])):
                f()
            pool = sys.modules.get('concurrent.futures.thread')
            if pool is not None:
                pool._shutdown = False      # the simulated process may go on with another program
        while not c.alone():
            live = [t for t in threading.enumerate() if c.ident.get(t.ident) in c.order[1:]]
            if all(t.daemon for t in live) and live or not c.blocked():
                return

    # -- the one place where everything happens
    def op(self, kind, path, **info):
        rel = self.rel(path) if path is not None else ''
        if getattr(self.local, 'busy', False):
            return None
        node = self.cur_node()
        self.n_ops += 1
        if self.n_ops > MAX_OPS:
            raise Budget(f'{MAX_OPS} file operations')
        self._advance()
        if not getattr(self.local, 'noyield', 0):
            if self.sched is not None:
                self.sched.point(node)
            if self.crews:
                self._crew_point()
        self.trace.append((node, kind, rel))
        if self.monitors:
            self.local.busy = True
            try:
                for m in self.monitors:
                    m(self, node, kind, rel, info)
            finally:
                self.local.busy = False
        return self._inject('op', kind, rel, node)

    def _crew_point(self, k=3):
        c = self.crew()
        if c is not None:
            c.point(k)
            if c.kbd and not getattr(self.local, 'child', False):
                c.kbd = False
                self.ctrl_c()

    def _advance(self):
        self.clock += self.tick
        self.simtime += abs(self.tick)
        if self.jumps:
            j = self.jumps.pop(self.n_ops, None)
            if j is not None:
                self.clock += j
                self.fired.append(('clock_jump', self.n_ops, j))

    def _inject(self, on, kind, rel, node):
        for f in self.faults:
            if f['on'] != on:
                continue
            if 'node' in f and f['node'] != node:
                continue
            kinds = f.get('kinds')
            if kinds and kind not in kinds:
                continue
            pat = f.get('path')
            if pat and not fnmatch.fnmatch(rel, pat):
                continue
            notp = f.get('notpath')
            if notp and fnmatch.fnmatch(rel, notp):
                continue
            f['_seen'] += 1
            n = f['_seen']
            if n < f.get('nth', 1) or n >= f.get('nth', 1) + f.get('count', 1):
                continue
            f['_fired'] += 1
            act = f['act']
            if act == 'edit':
                self.fired.append(('edit', on, kind, rel, sorted(f['put'])[0], self.n_kernel))
                self.edit(f['put'])
                continue
            if 'snap' in f:
                from . import compare
                self.snaps.append(compare.snapshot(os.path.join(self.root, f['snap'])))
            if act in ('short', 'torn_err', 'torn_crash') and kind not in ('write', 'read'):
                act = {'short': None, 'torn_err': 'errno', 'torn_crash': 'crash'}[act]
                if act is None:
                    continue
            label = act if act not in ('errno', 'torn_err') else \
                f"{act}:{_errno.errorcode.get(f.get('errno', 5), f.get('errno', 5))}"
            self.fired.append((label, on, kind, rel))
            if act == 'errno':
                e = f.get('errno', _errno.EIO)
                raise OSError(e, os.strerror(e) + ' (injected)', rel)
            if act == 'crash':
                self.crash()
            if act == 'kbd' and self.at_kbd is None:
                self.at_kbd = self.stats()
            if act == 'kbd' and getattr(self.local, 'child', False):
                self.crew().kbd = True      # Ctrl-C reaches the main thread
                return None
            if act == 'kbd':
                self.ctrl_c()
                continue
            if act == 'memerr':
                raise MemoryError('injected')
            if act == 'runtime':
                raise RuntimeError('injected kernel failure')
            if act == 'crash_after':
                return ('crash_after',)
            if act in ('short', 'torn_err', 'torn_crash'):
                return (act, f.get('frac', 0.5), f.get('errno', _errno.ENOSPC))
            if act == 'singular':
                return ('singular',)
            if act in ('reject', 'libfail'):
                return (act,)
            raise HarnessError(f'unknown fault action {act}')
        return None

    def ctrl_c(self):
        """What a Ctrl-C does depends on the handler that is installed at this moment."""
        global RT
        if threading.current_thread() is not threading.main_thread():
            raise KeyboardInterrupt('injected')
        rt, RT = RT, None
        try:
            if signal.SIGINT in signal.pthread_sigmask(signal.SIG_BLOCK, []):
                signal.raise_signal(signal.SIGINT)      # waits until it is not blocked any more
                return
            h = signal.getsignal(signal.SIGINT)
        finally:
            RT = rt
        if h is signal.default_int_handler:
            raise KeyboardInterrupt('injected')
        if h is signal.SIG_DFL:
            self.crash()
        if callable(h):
            h(signal.SIGINT, sys._getframe(1))

    def edit(self, put):
        """Somebody else replaces (as a whole) or removes files."""
        global RT
        rt, RT = RT, None
        try:
            for rel, text in sorted(put.items()):
                p = os.path.join(self.root, rel)
                if text is None:
                    if os.path.lexists(p):
                        os.unlink(p)
                    continue
                with open(p + '.new', 'w', encoding='utf-8') as fp:
                    fp.write(text)
                os.replace(p + '.new', p)
        finally:
            RT = rt

    def crash(self):
        self.report({'status': 'crash', 'steps': list(self.steps)})
        REAL['_exit'](CRASH_CODE)

    def stats(self):
        return {'ops': self.n_ops, 'lines': self.n_lines, 'alloc': self.n_alloc,
                'kernel': self.n_kernel, 'lapack': self.n_lapack, 'render': self.n_render, 'cpacs': self.n_cpacs,
                'simtime': self.simtime}

    def report(self, result):
        """Send the result over the harness channel (never through the simulated disk)."""
        result.update(snaps=self.snaps, infos=self.infos, outside=list(self.outside), trace=self.trace, fired=self.fired, violations=self.violations, stats=self.stats(), cover=self.cover, libs=self.libs, at_kbd=self.at_kbd)
        if self.sched is not None:
            result['switches'] = self.sched.log()
        if self.report_fd is not None:
            send(self.report_fd, b'R', result)

    def arrange(self, entries, key=None):
        """Directory entries: sorted, reversed or in an order of their own."""
        o = sorted(entries, key=key)
        how = self.knobs.get('dirorder', 0)
        if how == 1:
            o.reverse()
        elif how:
            import hashlib
            o.sort(key=lambda e: hashlib.md5(b'%d' % how + os.fsencode(key(e) if key else e)).digest())
        return o

    def alloc(self):
        self.n_alloc += 1
        self._inject('alloc', 'alloc', '', self.cur_node())

    # -- interpreter-line seam (Ctrl-C, MemoryError, crash, preemption at any statement)
    def line(self, code, lineno):
        self.n_lines += 1
        if self.n_lines > MAX_LINES:
            raise Budget(f'{MAX_LINES} lines')
        node = self.cur_node()
        where = _FUNC.get(code)
        if where is None:
            where = _FUNC[code] = code.co_filename[len(_PKGDIR):] + ':' + code.co_qualname
        if self.cover is not None:
            self.cover[where] = self.cover.get(where, 0) + 1
        if self.crews and not getattr(self.local, 'noyield', 0):
            self._crew_point(40)
        if self.sched is not None and not getattr(self.local, 'noyield', 0):
            p = self.pauses.get((node, where)) if self.pauses else None
            if p is not None:
                p[0] += 1
                to = p[1].get(p[0])
                if to is not None:
                    self.fired.append(('preempted', 'line', 'line', where))
                    self.sched.pause(node, to)
            if self.sched.line_preempt:
                self.sched.line_point(node)
        self._inject('line', 'line', where, node)


def send(fd, tag, obj=None):
    data = b'' if obj is None else pickle.dumps(obj, protocol=4)
    buf = tag + struct.pack('<Q', len(data)) + data
    view = memoryview(buf)
    while view:
        n = REAL['oswrite'](fd, view)
        view = view[n:]


def recv(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            b = REAL['osread'](fd, min(n - len(out), 1 << 20))
            if not b:
                return None
            out += b
        return out
    head = exactly(9)
    if head is None:
        return None, None
    n = struct.unpack('<Q', head[1:])[0]
    data = exactly(n) if n else b''
    if data is None:
        return None, None
    return head[:1], (pickle.loads(data) if n else None)


def activate(rt):
    global RT
    RT = rt
    if rt is not None and rt.want_lines:
        _lines_on()


def deactivate():
    global RT
    _lines_off()
    RT = None


# ------------------------------------------------------------------------------------- file objects

class SimRaw(io.FileIO):
    """Unbuffered file whose system calls are simulator operations."""

    def __init__(self, file, mode, closefd=True, opener=None, sim_path=None):
        self._sp = sim_path
        super().__init__(file, mode, closefd=closefd, opener=opener)

    def write(self, b):
        rt = RT
        if rt is None or self._sp is None:
            return super().write(b)
        data = bytes(b)
        d = rt.op('write', self._sp, size=len(data))
        if d is not None and d[0] in ('short', 'torn_err', 'torn_crash'):
            k = max(0, min(len(data), int(len(data) * d[1])))
            if d[0] == 'short':
                return super().write(data[:max(1, k)]) if data else 0
            done = 0
            while done < k:
                done += super().write(data[done:k])
            if d[0] == 'torn_crash':
                rt.crash()
            raise OSError(d[2], os.strerror(d[2]) + ' (injected, torn write)', self._sp)
        n = super().write(data)
        if d is not None and d[0] == 'crash_after':
            rt.crash()
        return n

    def _pre_read(self):
        rt = RT
        if rt is None or self._sp is None:
            return None
        return rt.op('read', self._sp)

    def readinto(self, b):
        d = self._pre_read()
        if d is not None and d[0] == 'short':
            k = max(1, int(len(b) * d[1]))
            return super().readinto(memoryview(b)[:k])
        return super().readinto(b)

    def read(self, size=-1):
        self._pre_read()
        return super().read(size)

    def readall(self):
        self._pre_read()
        return super().readall()

    def truncate(self, size=None):
        rt = RT
        if rt is not None and self._sp is not None:
            rt.op('truncate', self._sp)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        rt = RT
        sp = getattr(self, '_sp', None)
        if rt is None or sp is None:
            return super().close()
        try:
            d = rt.op('close', sp, writable=self.writable())
        except BaseException:
            super().close()
            raise
        super().close()
        if d is not None and d[0] == 'crash_after':
            rt.crash()


def _kind_of(mode):
    if 'x' in mode:
        return 'open_x'
    if 'w' in mode:
        return 'open_w'
    if 'a' in mode:
        return 'open_a'
    if '+' in mode:
        return 'open_rw'
    return 'open_r'


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rt = RT
    if rt is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = rt.fdmap.get(file)
        if path is None:
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        if not rt.inside(file):
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        if not os.path.isabs(path):
            path = os.path.join(os.getcwd(), path)
        rt.op(_kind_of(mode), path) if opener is None else None
    text = 'b' not in mode
    rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
    raw = SimRaw(file, rawmode, closefd=closefd, opener=opener, sim_path=path)
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = rt.bufsize if buffering in (-1, 1) else buffering
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in rawmode for c in 'wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        out = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        if size < 8192:
            try:
                out._CHUNK_SIZE = max(16, size)
            except Exception:
                pass
        out.mode = mode
        return out
    except BaseException:
        raw.close()
        raise


# ----------------------------------------------------------------------------------------- os calls

def _wrap_path(name, kind):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def f(path, *args, **kw):
        rt = RT
        if rt is None or isinstance(path, int) or not rt.inside(path):
            return real(path, *args, **kw)
        d = rt.op(kind, path)
        r = real(path, *args, **kw)
        if d is not None and d[0] == 'crash_after':
            rt.crash()
        return r
    f.__name__ = name
    f.__wrapped__ = real
    setattr(os, name, f)


def _wrap_optpath(name, kind):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def f(path='.', *args, **kw):
        rt = RT
        if rt is None or path is None or isinstance(path, int) or not rt.inside(path):
            return real(path, *args, **kw)
        rt.op(kind, path)
        if name == 'listdir':
            return rt.arrange(real(path, *args, **kw))
        return _SortedScan(real(path, *args, **kw), rt)
    f.__name__ = name
    setattr(os, name, f)


class _SortedScan:
    """scandir in the order the simulator chooses."""

    def __init__(self, it, rt):
        with it:
            self._entries = rt.arrange(it, key=lambda e: e.name)
        self._i = iter(self._entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._i)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass


def _wrap_two(name, kind):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def f(src, dst, *args, **kw):
        rt = RT
        if rt is None or not (rt.inside(dst) or (kind != 'symlink' and rt.inside(src))):
            return real(src, dst, *args, **kw)
        d = rt.op(kind, dst, src=(rt.rel(src) if kind != 'symlink' else ''))
        r = real(src, dst, *args, **kw)
        if d is not None and d[0] == 'crash_after':
            rt.crash()
        return r
    f.__name__ = name
    setattr(os, name, f)


def _install_os():
    for name, kind in (('mkdir', 'mkdir'), ('rmdir', 'rmdir'), ('unlink', 'unlink'), ('remove', 'unlink'),
                       ('stat', 'stat'), ('lstat', 'stat'), ('readlink', 'stat'), ('access', 'stat'),
                       ('truncate', 'truncate'), ('chmod', 'chmod'), ('utime', 'utime')):
        _wrap_path(name, kind)
    for name in ('listdir', 'scandir'):
        _wrap_optpath(name, 'listdir')
    for name, kind in (('rename', 'rename'), ('replace', 'rename'), ('link', 'link'), ('symlink', 'symlink')):
        _wrap_two(name, kind)

    real_open = os.open
    REAL['os.open'] = real_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        rt = RT
        if rt is None or dir_fd is not None or not rt.inside(path):
            return real_open(path, flags, mode, dir_fd=dir_fd)
        if flags & os.O_EXCL:
            kind = 'open_x'
        elif flags & os.O_TRUNC:
            kind = 'open_w'
        elif flags & (os.O_WRONLY | os.O_RDWR):
            kind = 'open_a'
        else:
            kind = 'open_r'
        rt.op(kind, path)
        fd = real_open(path, flags, mode)
        p = os.fspath(path)
        rt.fdmap[fd] = p if os.path.isabs(p) else os.path.join(os.getcwd(), p)
        return fd
    os.open = os_open

    real_write = os.write

    def os_write(fd, data):
        rt = RT
        path = rt.fdmap.get(fd) if rt is not None else None
        if path is None:
            return real_write(fd, data)
        data = bytes(data)
        d = rt.op('write', path, size=len(data))
        if d is not None and d[0] in ('short', 'torn_err', 'torn_crash'):
            k = int(len(data) * d[1])
            if d[0] == 'short':
                return real_write(fd, data[:max(1, k)]) if data else 0
            real_write(fd, data[:k])
            if d[0] == 'torn_crash':
                rt.crash()
            raise OSError(d[2], os.strerror(d[2]) + ' (injected, torn write)', path)
        n = real_write(fd, data)
        if d is not None and d[0] == 'crash_after':
            rt.crash()
        return n
    os.write = os_write

    real_close = os.close
    REAL['os.close'] = real_close

    def os_close(fd):
        rt = RT
        path = rt.fdmap.pop(fd, None) if rt is not None else None
        if path is not None:
            try:
                rt.op('close', path, writable=True)
            except BaseException:
                real_close(fd)
                raise
        return real_close(fd)
    os.close = os_close

    for name in ('fsync', 'fdatasync'):
        real = getattr(os, name)

        def f(fd, _real=real):
            rt = RT
            if rt is not None:
                n = fd if isinstance(fd, int) else fd.fileno()
                path = rt.fdmap.get(n)
                rt.op('fsync', path)
            return _real(fd)
        setattr(os, name, f)

    def getpid():
        rt = RT
        return REAL['getpid']() if rt is None else rt.knobs.get('pid', 4000) + 10 * rt.inc + rt.node
    os.getpid = getpid
    real_urandom = os.urandom

    def urandom(n):
        rt = RT
        if rt is None:
            return real_urandom(n)
        import hashlib
        rt.tmpseq += 1
        return hashlib.shake_128(b'%d/%d/%d' % (rt.inc, rt.node, rt.tmpseq)).digest(n)
    os.urandom = urandom

    import shutil
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    for n in ('rmtree',):
        fn = getattr(shutil, n)
        try:
            fn.avoids_symlink_attacks = False
        except Exception:
            pass

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            rt = RT
            if rt is None:
                return 'sim%016x' % int.from_bytes(real_urandom(8), 'big')
            rt.tmpseq += 1
            return f'sim{rt.inc}x{rt.node}x{rt.tmpseq}'
    tempfile._name_sequence = Names()

    try:
        import fcntl
        for name in ('flock', 'lockf'):
            real = getattr(fcntl, name)

            def locker(fd, cmd, *a, _real=real):
                rt = RT
                if rt is None or rt.sched is None or (cmd & fcntl.LOCK_NB) or (cmd & fcntl.LOCK_UN):
                    return _real(fd, cmd, *a)
                while True:
                    try:
                        return _real(fd, cmd | fcntl.LOCK_NB, *a)
                    except OSError as e:
                        if e.errno not in (_errno.EAGAIN, _errno.EACCES):
                            raise
                        rt.sched.blocked(rt.cur_node())
            setattr(fcntl, name, locker)
    except ImportError:
        pass


# -------------------------------------------------------------------------------------------- clock

def _install_clock():
    def sim_time():
        rt = RT
        return REAL['time']() if rt is None else rt.clock

    def sim_time_ns():
        rt = RT
        return REAL['time_ns']() if rt is None else int(rt.clock * 1e9)

    def sim_sleep(s):
        rt = RT
        if rt is None:
            return REAL['sleep'](s)
        rt.clock += s
        rt.simtime += s
        if rt.sched is not None:
            rt.sched.point(rt.cur_node())
        c = rt.crew()
        if c is not None:
            c.idle = 0
            c.blocked()
        rt.n_ops += 1
        if rt.n_ops > MAX_OPS:
            raise Budget('sleeping')
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.sleep = sim_sleep

    real = _datetime.datetime

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class datetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            rt = RT
            return real.now(tz) if rt is None else real.fromtimestamp(rt.clock, tz or _datetime.timezone.utc) \
                .replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__name__ = 'datetime'
    _datetime.datetime = datetime


# -------------------------------------------------------------------------------------------- locks

class SimLock:
    """threading.Lock/RLock that parks in the simulator's scheduler, not in the kernel."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        rt = RT
        if rt is None or not blocking or not rt.crews and (rt.sched is None or not rt.sched.threads):
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not rt.wait():
                if timeout is not None and timeout >= 0:
                    rt.clock += timeout
                    rt.simtime += timeout
                    c = rt.crew()
                    if c is not None:
                        c.idle = 0
                    return False
                from .sched import Deadlock
                raise Deadlock('all threads wait')
        self._progress(rt)
        return True

    @staticmethod
    def _progress(rt):
        c = rt.crew() if rt is not None else None
        if c is not None:
            c.idle = 0

    def release(self):
        self._progress(RT)
        return self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


class SimRLock(SimLock):
    def _is_owned(self):
        return self._real._is_owned()

    def _release_save(self):
        self._progress(RT)
        return self._real._release_save()

    def _acquire_restore(self, state):
        self.acquire()
        self._real.release()
        self._real._acquire_restore(state)


def _install_locks():
    rl, ll = threading.RLock, threading.Lock
    threading.Lock = threading._allocate_lock = lambda: SimLock(ll())
    threading.RLock = lambda: SimRLock(rl())

    start = threading._start_new_thread

    def start_new_thread(body, args, *more):
        rt = RT
        return start(body, args, *more) if rt is None else rt.spawn(body, args)
    threading._start_new_thread = start_new_thread

    tstate = threading.Thread._wait_for_tstate_lock

    def wait_for_tstate_lock(self, block=True, timeout=-1):
        rt = RT
        c = rt.crew() if rt is not None else None
        if c is not None and self._ident in c.ident:
            while self._ident not in c.ended:
                if not block:
                    return
                if not rt.wait():
                    if timeout >= 0:
                        c.idle = 0
                        return
                    from .sched import Deadlock
                    raise Deadlock('a thread is joined which waits for ever')
            block, timeout = True, -1
        return tstate(self, block, timeout)
    threading.Thread._wait_for_tstate_lock = wait_for_tstate_lock
    import queue
    queue.SimpleQueue = queue._PySimpleQueue


def _install_logging():
    """No context switch while a handler's lock is held."""
    import logging
    acq, rel = logging.Handler.acquire, logging.Handler.release

    def acquire(self):
        rt = RT
        if rt is not None:
            rt.local.noyield = getattr(rt.local, 'noyield', 0) + 1
        return acq(self)

    def release(self):
        rt = RT
        r = rel(self)
        if rt is not None:
            rt.local.noyield = max(0, getattr(rt.local, 'noyield', 0) - 1)
        return r
    logging.Handler.acquire = acquire
    logging.Handler.release = release
    logging.raiseExceptions = False


# -------------------------------------------------------------------------- numpy / lapack / kernel

def _install_numpy():
    import numpy as np
    garbage = [float('nan'), 1.2345e301, -7.7e-12, 6.6e42]

    def wrap(name):
        real = getattr(np, name)
        REAL['np.' + name] = real

        def f(*args, **kw):
            rt = RT
            if rt is None:
                return real(*args, **kw)
            rt.alloc()
            out = real(*args, **kw)
            if rt.poison is not None and name.startswith('empty') and out.dtype.kind == 'f':
                out[...] = garbage[(rt.poison + rt.n_alloc) % len(garbage)]
            return out
        f.__name__ = name
        setattr(np, name, f)
    for name in ('zeros', 'empty', 'ones', 'zeros_like', 'empty_like', 'full'):
        wrap(name)

    import scipy.linalg.lapack as lapack
    real_dgesv = lapack.dgesv

    def dgesv(a, b, *args, **kw):
        rt = RT
        if rt is None:
            return real_dgesv(a, b, *args, **kw)
        rt.n_lapack += 1
        d = rt._inject('lapack', 'dgesv', '', rt.cur_node())
        lu, piv, x, info = real_dgesv(a, b, *args, **kw)
        if d is not None and d[0] == 'singular':
            # what LAPACK does when U(i,i) is exactly zero: info > 0, right-hand side left unsolved
            x, info = np.array(b, dtype=float, copy=True), max(1, len(b) // 2)
        if d is not None and d[0] == 'reject':
            x, info = np.array(b, dtype=float, copy=True), -4
        rt.infos.append(int(info))
        return lu, piv, x, info
    lapack.dgesv = dgesv


def install_kernel(pkg):
    """Wrap the entry points of the compiled kernel (before any pytornado module imports them)."""
    import importlib
    c = importlib.import_module(pkg + '.aero.c_vlm')
    for name in dir(c):
        if not name.startswith('py2c_'):
            continue
        real = getattr(c, name)

        def f(*args, _real=real, _name=name):
            rt = RT
            if rt is None:
                return _real(*args)
            rt.n_kernel += 1
            if rt.sched is not None and not getattr(rt.local, 'noyield', 0):
                rt.sched.point(rt.cur_node())
            d = rt._inject('kernel', _name, '', rt.cur_node())
            if d is not None and d[0] == 'reject':
                # an input the compiled code refuses: its own error path runs
                args = (object(),) + args[1:]
            return _real(*args)
        f.__name__ = name
        setattr(c, name, f)


class _Drawn:
    """Summary of numbers and words drawn: equal pictures have equal summaries, up to rounding."""

    def __init__(self):
        self.n, self.s, self.w, self.a, self.crc = 0, 0.0, 0.0, 0.0, 0

    def num(self, *arrays):
        import numpy as np
        for x in arrays:
            x = np.ma.filled(np.ma.asarray(x, dtype=float), 0.0).ravel()
            self.s += float(x.sum())
            self.w += float((x*np.cos(1.0 + self.n + np.arange(x.size))).sum())
            self.a += float(abs(x).sum())
            self.n += x.size

    def word(self, *words):
        import zlib
        for w in words:
            self.crc = zlib.crc32(repr(w).encode(), self.crc)

    def __str__(self):
        return f'{self.n} {self.crc:08x} {self.s!r} {self.w!r} {self.a!r}'


def _drawn(figure):
    """One line of text per drawing area, about all that is to be seen there."""
    import numpy as np
    out = []
    for t in figure.texts:
        d = _Drawn()
        d.word(t.get_text())
        out.append(f'figure {d}')
    for ax in figure.axes:
        d, c = _Drawn(), _Drawn()
        d.word(ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
        d.num(ax.get_xlim(), ax.get_ylim())
        if hasattr(ax, 'get_zlim'):
            d.word(ax.get_zlabel())
            d.num(ax.get_zlim())
        for x in ax.lines:
            d.num(*(x.get_data_3d() if hasattr(x, 'get_data_3d') else x.get_data()))
            d.word(x.get_color(), x.get_linestyle(), x.get_marker())
        for x in ax.texts:
            d.num([p for p in x.get_position()])
            d.word(x.get_text())
        for x in ax.images:
            d.num(x.get_array())
        for x in ax.collections:
            seg = getattr(x, '_segments3d', None)
            if seg is not None:
                d.num(*[np.asarray(s) for s in seg])
            elif hasattr(x, '_offsets3d'):
                d.num(*x._offsets3d)
            elif len(x.get_offsets()):
                d.num(x.get_offsets())
            if x.get_array() is not None:
                d.num(x.get_array())
        for args, color in getattr(ax, '_sim_fills', ()):
            d.num(*args)
            if color is not None and not isinstance(color, str):
                c.num(color)
        cb = getattr(ax, '_colorbar', None)
        if cb is not None and cb.mappable.get_array() is not None:
            d.num(cb.mappable.get_array())
        out.append(f'axes {d}')
        out.append(f'colors {c}')
    return '\n'.join(out)


def install_plot_stubs():
    """Rasterising and layout are environment: savefig writes a small stand-in file through the seam."""
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf

    def savefig(self, fname, *args, **kw):
        rt = RT
        if rt is not None:
            rt.n_render += 1
            rt._inject('render', 'savefig', '', rt.cur_node())
        n = sum(len(a.lines) + len(a.collections) + len(a.patches) + len(a.texts) + len(a.images) + len(getattr(a, '_sim_fills', ()))
                for a in self.axes)
        parts = [b'\x89PNG simulated\n', b'artists=%d axes=%d\n' % (n, len(self.axes)), _drawn(self).encode() + b'\n', b'.' * 700 + b'\nIEND\n']
        if hasattr(fname, 'write'):
            for x in parts:
                fname.write(x)
            return
        with open(fname, 'wb') as fp:
            for x in parts:
                fp.write(x)
    mf.Figure.savefig = savefig

    def tight_layout(*args, **kw):
        rt = RT
        plt.gcf()
        if rt is not None:
            rt._inject('render', 'tight_layout', '', rt.cur_node())
    plt.tight_layout = tight_layout

    import matplotlib.axes as ma

    def fill(self, *args, **kw):
        # thousands of polygons per figure: only noted
        if not hasattr(self, '_sim_fills'):
            self._sim_fills = []
        self._sim_fills.append((args, kw.get('color')))
        return []
    ma.Axes.fill = fill

    def show(*args, **kw):
        rt = RT
        if rt is not None:
            rt._inject('render', 'show', '', rt.cur_node())
            # what the user gets to see: all open figures
            rt.shown += [_drawn(m.canvas.figure) for m in Gcf.get_all_fig_managers()]
    plt.show = show
    import mpl_toolkits.mplot3d.axes3d as a3

    def plot_surface(self, X, Y, Z, *args, **kw):
        rt = RT
        if rt is not None:
            rt._inject('render', 'plot_surface', '', rt.cur_node())
        if not hasattr(self, '_sim_fills'):
            self._sim_fills = []
        self._sim_fills.append(((X, Y, Z), kw.get('color')))
        return self.plot([0.0], [0.0], [0.0])
    a3.Axes3D.plot_surface = plot_surface


# --------------------------------------------------------------------------------------- line seam

_TOOL = 4
_FUNC = {}
_PKGDIR = None


def set_package_dir(d):
    global _PKGDIR
    _PKGDIR = d


def _on_line(code, lineno):
    if not code.co_filename.startswith(_PKGDIR):
        return sys.monitoring.DISABLE
    rt = RT
    if rt is not None:
        rt.line(code, lineno)


def _lines_on():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'pytornado-sim')
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.set_events(_TOOL, mon.events.LINE)
    mon.restart_events()


def _lines_off():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is not None:
        mon.set_events(_TOOL, 0)


_AUDIT = {'os.mkdir': (0,), 'os.rename': (0, 1), 'os.remove': (0,), 'os.rmdir': (0,), 'os.link': (1,), 'os.symlink': (1,),
          'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,)}


def _audit(event, args):
    """Changes outside the simulated root (only recorded)."""
    rt = RT
    if rt is None:
        return
    if event == 'open':
        path, mode, flags = args
        if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) or isinstance(path, int):
            return
        paths = [path]
    elif event in _AUDIT:
        paths = [args[i] for i in _AUDIT[event]]
    else:
        return
    for p in paths:
        if isinstance(p, (str, bytes, os.PathLike)) and not rt.inside(p):
            p = os.fsdecode(p)
            if not p.startswith(('/dev/', '/proc/', os.environ.get('MPLCONFIGDIR', '/dev/'))):
                rt.outside.append((event, p))


def install():
    """Install everything that must be in place before numpy and pytornado are imported."""
    builtins.open = sim_open
    io.open = sim_open
    _install_os()
    _install_clock()
    _install_locks()
    _install_logging()
    _install_numpy()
    sys.addaudithook(_audit)
