"""Schedulers: who runs next is decided here and nowhere else.

A schedule is {decision number: node}.  Every yield point (file operation, kernel call, in line mode
every source line) is one decision; without an entry the current node goes on.  The decisions taken are
logged, so an execution is exactly repeatable from the (minimised) switch list.
"""
import _thread
import hashlib

from . import seams


class ProcSched:
    """Runs inside a forked node: park at each point until the parent says go."""
    threads = False

    def __init__(self, cmd_fd, rep_fd, line_preempt=0):
        self.cmd, self.rep = cmd_fd, rep_fd
        self.line_preempt = line_preempt
        self._n = 0

    def _park(self, tag):
        seams.REAL['oswrite'](self.rep, tag + b'\0' * 8)
        if not seams.REAL['osread'](self.cmd, 1):
            seams.REAL['_exit'](70)

    def point(self, node):
        self._park(b'Y')

    def line_point(self, node):
        self._n += 1
        if self._n % self.line_preempt == 0:
            self._park(b'Y')

    def blocked(self, node):
        self._park(b'B')

    def log(self):
        return []


class Deadlock(BaseException):
    pass


class Crew:
    """The threads which the code under test starts itself, within one node (or one caller thread).

    Exactly one of the crew runs; it hands over at file operations and kernel calls (as its seed says), when it
    waits for a lock, queue, event or thread, when it sleeps and when it ends.  Modes: a new thread runs first,
    runs only when the starter waits, or the seed decides.
    """

    def __init__(self, seed):
        self.seed = seed
        self.mode = seed % 3
        self.n = 0
        self.count = 1
        self.locks = {0: _thread.allocate_lock()}
        self.locks[0].acquire()
        self.order = [0]
        self.cur = 0
        self.idle = 0           # fruitless turns in a row
        self.ident = {}         # thread ident -> member
        self.ended = set()      # idents of threads which are through
        self.kbd = False        # a Ctrl-C waits for the main thread

    def _chance(self, k):
        self.n += 1
        return int.from_bytes(hashlib.md5(b'%d/%d' % (self.seed, self.n)).digest()[:4], 'big') % k

    def _go(self, to):
        frm, self.cur = self.cur, to
        self.locks[to].release()
        self.locks[frm].acquire()

    def _next(self):
        i = self.order.index(self.cur)
        return self.order[(i + 1) % len(self.order)]

    def spawn(self, body, args, enter):
        me = self.count
        self.count += 1
        self.locks[me] = _thread.allocate_lock()
        self.locks[me].acquire()
        self.order.append(me)

        def boot():
            self.locks[me].acquire()
            self.ident[_thread.get_ident()] = me
            enter()
            try:
                body(*args)
            finally:
                self.ended.add(_thread.get_ident())
                to = 0 if self.mode == 1 else self._next()
                self.order.remove(me)
                self.idle = 0
                self.cur = to
                del self.locks[me]
                self.locks[to].release()
        ident = _thread.start_new_thread(boot, ())
        self.ended.discard(ident)
        self.ident[ident] = me
        if self.mode == 0 or self.mode == 2 and self._chance(2):
            self._go(me)
        return ident

    def alone(self):
        return len(self.order) == 1

    def point(self, k=3):
        self.idle = 0
        if self.mode and not self.alone() and (self.mode == 2 or self.cur) and self._chance(k) == 0:
            others = [x for x in self.order if x != self.cur]
            self._go(others[self._chance(len(others))])

    def blocked(self, limit=None):
        """Let another one go on; False when all of them only wait for each other."""
        if self.alone():
            return False
        self.idle += 1
        if self.idle > 3 * len(self.order) + 3:
            return False
        self._go(self._next())
        return True


class ThreadSched:
    """N caller threads in one process; exactly one holds the baton."""
    threads = True

    def __init__(self, n, switches, line_preempt=0):
        self.n = n
        self.switches = {int(k): int(v) for k, v in switches}
        self.line_preempt = line_preempt
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.alive = set(range(n))
        self.wait = set()
        self.decisions = 0
        self.taken = []
        self.h = hashlib.sha256()
        self._lines = 0
        self.stuck = 0

    def _go(self, frm, to):
        self.taken.append((self.decisions, frm, to))
        self.locks[to].release()
        self.locks[frm].acquire()

    def point(self, node):
        self.wait.clear()
        self.stuck = 0
        self.decisions += 1
        self.h.update(b'%d;' % node)
        to = self.switches.get(self.decisions)
        if to is not None and to != node and to in self.alive:
            self._go(node, to)

    def pause(self, node, to):
        """The other thread goes on from here until its own next switch or its end."""
        self.decisions += 1
        self.h.update(b'p%d>%d;' % (node, to))
        if to != node and to in self.alive:
            self._go(node, to)

    def line_point(self, node):
        self._lines += 1
        if self._lines % self.line_preempt == 0:
            self.point(node)

    def blocked(self, node):
        self.wait.add(node)
        others = sorted(self.alive - self.wait)
        self.stuck += 1
        if not others or self.stuck > 10000:
            raise Deadlock('all threads blocked')
        self.decisions += 1
        self._go(node, others[0])

    # -- life cycle
    def start(self, bodies):
        def boot(i, body):
            self.locks[i].acquire()
            try:
                body()
            finally:
                self.alive.discard(i)
                self.wait.clear()
                if self.alive:
                    nxt = sorted(self.alive)[0]
                    self.taken.append((self.decisions, i, nxt))
                    self.locks[nxt].release()
                else:
                    self.main.release()
        for i, b in enumerate(bodies):
            _thread.start_new_thread(boot, (i, b))
        self.locks[0].release()
        self.main.acquire()

    def log(self):
        return list(self.taken)
