"""The simulator proper: sandboxes, node incarnations (forked), process and thread scheduling."""
import gc
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback

from . import actions, compare, sched as S, seams

REAL_LIMIT = 90.0     # real seconds one node may take before it counts as a harness error


class Env:
    """One simulation: a scratch disk that outlives node incarnations, plus bookkeeping."""

    def __init__(self, base, name):
        self.root = os.path.realpath(os.path.join(base, name))
        os.makedirs(self.root)
        self.stats = {'ops': 0, 'lines': 0, 'alloc': 0, 'kernel': 0, 'lapack': 0, 'render': 0, 'cpacs': 0, 'simtime': 0.0}
        self.fired = []
        self.nodes = 0
        self.traces = []
        self.keep_traces = False

    def close(self):
        _unprotect(self.root)
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def snap(self, rel=''):
        return compare.snapshot(os.path.join(self.root, rel) if rel else self.root)

    def wipe(self):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    # -- one node ---------------------------------------------------------------------------------
    def node(self, steps, *, faults=(), knobs=None, monitors=(), cwd='', lines=False, node=0):
        r = self._spawn_one(steps, faults, knobs, monitors, cwd, lines, node)
        if r['status'] == 'timeout' and not lines:
            # decide deterministically whether it is a loop in Python code
            r = self._spawn_one(steps, faults, knobs, monitors, cwd, True, node)
        if r['status'] == 'timeout':
            raise seams.HarnessError(f'node exceeded {REAL_LIMIT} s of real time')
        return self._account(r)

    def _account(self, r):
        self.nodes += 1
        for k, v in r.get('stats', {}).items():
            self.stats[k] += v
        self.fired += r.get('fired', [])
        if self.keep_traces:
            self.traces.append(r.get('trace'))
        if r['status'] == 'harness':
            raise seams.HarnessError(r['error'])
        return r

    def _child(self, fn):
        """Everything a node does happens in here; never returns."""
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not os.environ.get('SIM_STDERR'):
                null = os.open('/dev/null', os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
            fn()
        finally:
            seams.REAL['_exit'](0)

    def _body(self, rt, steps, cwd):
        def fn():
            out = rt.steps = []
            try:
                os.chdir(os.path.join(self.root, cwd))
                _personality(rt)
                seams.activate(rt)
                ctx = actions.Ctx(self.root)
                if rt.sched is not None:
                    rt.sched.point(rt.node)
                for s in steps:
                    out.append(actions.run_step(ctx, s))
                rt.drain(True)
                seams.deactivate()
                rt.report({'status': 'done', 'steps': out})
            except S.Deadlock as e:
                seams.deactivate()
                rt.report({'status': 'deadlock', 'steps': out, 'error': str(e)})
            except seams.Budget as e:
                seams.deactivate()
                rt.report({'status': 'budget', 'steps': out, 'error': str(e)})
            except BaseException:
                seams.deactivate()
                rt.report({'status': 'harness', 'steps': out, 'error': traceback.format_exc()})
        return fn

    def _spawn_one(self, steps, faults, knobs, monitors, cwd, lines, node):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            rt = seams.Runtime(self.root, faults, knobs, None, monitors, node, w, lines, self.nodes)
            self._child(self._body(rt, steps, cwd))
        os.close(w)
        try:
            return self._collect(pid, r, time.monotonic() + REAL_LIMIT)
        finally:
            os.close(r)

    def _collect(self, pid, r, deadline):
        while True:
            left = deadline - time.monotonic()
            ready = select.select([r], [], [], max(0, left))[0]
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {'status': 'timeout', 'steps': []}
            tag, obj = seams.recv(r)
            if tag == b'R':
                os.waitpid(pid, 0)
                return obj
            if tag is None:
                _, st = os.waitpid(pid, 0)
                return _died(st)

    # -- several processes under one schedule -------------------------------------------------------
    def processes(self, nodes, switches=(), *, knobs=None, monitors=(), line_preempt=0):
        """nodes: [{'steps','faults','cwd','knobs'}]. Returns (results, taken switches, decisions)."""
        sw = {int(k): int(v) for k, v in switches}
        n = len(nodes)
        procs = []
        sys.stdout.flush()
        for i, nd in enumerate(nodes):
            rr, rw = os.pipe()
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rr)
                os.close(cw)
                for p in procs:
                    os.close(p['r'])
                    os.close(p['w'])
                ps = S.ProcSched(cr, rw, line_preempt)
                rt = seams.Runtime(self.root, nd.get('faults', ()), nd.get('knobs') or knobs, ps, monitors, i, rw, False, self.nodes + i)
                self._child(self._body(rt, nd['steps'], nd.get('cwd', '')))
            os.close(rw)
            os.close(cr)
            procs.append({'pid': pid, 'r': rr, 'w': cw, 'res': None})
        deadline = time.monotonic() + REAL_LIMIT
        try:
            for p in procs:
                self._step(p, deadline)         # each reports its first yield
            alive = [i for i in range(n) if procs[i]['res'] is None]
            blocked = set()
            cur, decisions, taken, order = (alive[0] if alive else None), 0, [], []
            stuck = 0
            while alive:
                decisions += 1
                if decisions > 400000:
                    raise seams.HarnessError('scheduler budget')
                to = sw.get(decisions)
                if to is not None and to in alive and to not in blocked and to != cur:
                    taken.append((decisions, cur, to))
                    cur = to
                elif cur not in alive or cur in blocked:
                    free = [i for i in alive if i not in blocked]
                    if not free:
                        stuck += 1
                        if stuck > 3:
                            for i in alive:
                                procs[i]['res'] = {'status': 'deadlock', 'steps': [], 'trace': [], 'fired': [],
                                                   'violations': [], 'stats': {}}
                                os.kill(procs[i]['pid'], signal.SIGKILL)
                                os.waitpid(procs[i]['pid'], 0)
                            break
                        blocked.clear()
                        free = list(alive)
                    # give the turn to the next one in cyclic order
                    nxt = min((i for i in free if i > (cur if cur is not None else -1)), default=free[0])
                    taken.append((decisions, cur, nxt))
                    cur = nxt
                order.append(cur)
                p = procs[cur]
                os.write(p['w'], b'g')
                tag = self._step(p, deadline)
                if tag == 'blocked':
                    blocked.add(cur)
                else:
                    blocked.clear()
                    stuck = 0
                if p['res'] is not None:
                    alive.remove(cur)
        finally:
            for p in procs:
                if p['res'] is None:
                    try:
                        os.kill(p['pid'], signal.SIGKILL)
                        os.waitpid(p['pid'], 0)
                    except OSError:
                        pass
                os.close(p['r'])
                os.close(p['w'])
        res = [self._account(p['res']) for p in procs]
        return res, taken, order

    def _step(self, p, deadline):
        ready = select.select([p['r']], [], [], max(0, deadline - time.monotonic()))[0]
        if not ready:
            raise seams.HarnessError('node exceeded the real-time limit')
        tag, obj = seams.recv(p['r'])
        if tag == b'Y':
            return 'yield'
        if tag == b'B':
            return 'blocked'
        if tag == b'R':
            os.waitpid(p['pid'], 0)
            p['res'] = obj
            return 'end'
        _, st = os.waitpid(p['pid'], 0)
        p['res'] = _died(st)
        return 'end'

    # -- several threads in one process -------------------------------------------------------------
    def threads(self, nodes, switches=(), *, knobs=None, monitors=(), line_preempt=0, cwd='', pauses=()):
        """nodes: [{'steps'}] run by caller threads of one process under the schedule."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            ts = S.ThreadSched(len(nodes), switches, line_preempt)
            faults = [dict(f, node=i) for i, nd in enumerate(nodes) for f in nd.get('faults', ())]
            rt = seams.Runtime(self.root, faults, knobs, ts, monitors, 0, w, False, self.nodes, pauses)

            def fn():
                outs = [[] for _ in nodes]
                errs = []
                try:
                    os.chdir(os.path.join(self.root, cwd))
                    _personality(rt)
                    seams.activate(rt)

                    def body(i):
                        def go():
                            rt.local.node = i
                            ctx = actions.Ctx(self.root)
                            try:
                                for s in nodes[i]['steps']:
                                    outs[i].append(actions.run_step(ctx, s))
                                rt.drain()
                            except BaseException as e:
                                errs.append((i, type(e).__name__, str(e), traceback.format_exc()))
                        return go
                    ts.start([body(i) for i in range(len(nodes))])
                    seams.deactivate()
                    st = 'done'
                    if any(e[1] == 'Budget' for e in errs):
                        st = 'budget'
                    elif any(e[1] == 'Deadlock' for e in errs):
                        st = 'deadlock'
                    elif errs:
                        st = 'harness'
                    rt.report({'status': st, 'threads': outs, 'steps': [], 'error': '\n'.join(e[3] for e in errs),
                               'decisions': ts.decisions, 'interleaving': ts.h.hexdigest()[:16]})
                except BaseException:
                    seams.deactivate()
                    rt.report({'status': 'harness', 'steps': [], 'error': traceback.format_exc()})
            self._child(fn)
        os.close(w)
        try:
            res = self._collect(pid, r, time.monotonic() + REAL_LIMIT)
        finally:
            os.close(r)
        if res['status'] == 'timeout':
            raise seams.HarnessError('threads exceeded the real-time limit')
        return self._account(res)


def _personality(rt):
    """Random state, environment and collector of a process are part of its seed."""
    import random
    import numpy as np
    s = rt.knobs.get('rng', 0) + 1000 * rt.inc + rt.node
    random.seed(s)
    np.random.seed(s)
    os.environ.update(rt.knobs.get('env') or {})
    if rt.knobs.get('gc') is not None:
        gc.set_threshold(*rt.knobs['gc'])
    h = rt.knobs.get('host')
    if h:
        # another machine, another way of having been started
        import platform
        import socket
        os.cpu_count = lambda: h['cpus']
        os.sched_getaffinity = lambda pid: set(range(h['cpus']))
        socket.gethostname = platform.node = lambda: h['name']
        os.umask(h['umask'])
        sys.argv = list(h['argv'])
        sys.setrecursionlimit(h['recursion'])


def _died(st):
    if os.WIFSIGNALED(st):
        s = f'signal {os.WTERMSIG(st)}'
    else:
        s = f'exit {os.WEXITSTATUS(st)}'
    return {'status': 'died', 'steps': [], 'error': s, 'trace': [], 'fired': [], 'violations': [], 'stats': {}}


def _unprotect(root):
    for base, dirs, _ in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o755)
                except OSError:
                    pass


def boot(overlay):
    """Import everything once, with the seams in place, before any node is forked."""
    lib = os.path.join(overlay, 'src', 'lib')
    sys.path.insert(0, lib)
    actions.CODE = overlay
    seams.install()
    import numpy  # noqa
    import scipy.linalg  # noqa
    import scipy.interpolate  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt  # noqa
    import mpl_toolkits.mplot3d  # noqa
    import concurrent.futures.thread, queue, multiprocessing.pool  # noqa
    import argparse, glob, decimal, fractions, encodings.idna, encodings.ascii, locale  # noqa
    import warnings
    warnings.simplefilter('ignore')
    seams.install_kernel('pytornado')
    from . import stubs
    stubs.install()
    import pytornado
    here = os.path.realpath(os.path.dirname(pytornado.__file__))
    if not here.startswith(os.path.realpath(lib)):
        raise seams.HarnessError(f'wrong pytornado: {here}')
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(pytornado.__path__, 'pytornado.'):
        try:
            importlib.import_module(m.name)
        except Exception as e:
            raise seams.HarnessError(f'cannot import {m.name}: {e!r}')
    seams.install_plot_stubs()
    seams.set_package_dir(here + os.sep)
    seams.DBDIR = os.path.join(here, 'database', 'aircraft') + os.sep
    fig = plt.figure()
    fig.add_subplot(111)
    plt.close('all')
    gc.collect()
    gc.freeze()
