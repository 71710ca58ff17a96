"""What a simulated node does: calls into the public API of the code under test.

Runs inside a forked child.  A step is a small dict; the result is a plain picklable dict.
"""
import builtins
import contextlib
import copy
import gc
import json
import os
import sys

import numpy as np

from . import compare, sched, seams

VERBOSITY = ('-v', '--verbose', '-d', '--debug', '-q', '--quiet')
CODE = None          # overlay directory (src/lib, src/bin)


def own_handler(n, frame):
    """A signal handler the caller has installed."""
    import signal
    if n == signal.SIGINT:
        raise KeyboardInterrupt('injected')


def _plain(x, root=None):
    if isinstance(x, dict):
        return {str(k): _plain(v, root) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v, root) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    s = str(x)
    return s.replace(root, '<root>') if root else s


def summary(res, root=None):
    """The data an analysis hands to its caller, as plain values."""
    if not isinstance(res, dict):
        return {'type': str(type(res))}
    out = {}
    v = res['vlmdata']
    out['forces'] = _plain(v.forces)
    out['coeffs'] = _plain(v.coeffs)
    out['panelwise'] = _plain({k: x for k, x in v.panelwise.items()})
    out['rhs'] = _plain(v.array_rhs)
    out['matrix'] = _plain(v.matrix_downwash)
    lat = res['lattice']
    for n in 'pvcna':
        out['lattice_' + n] = _plain(getattr(lat, n))
    out['lattice_mid'] = _plain(lat.bound_leg_midpoints)
    out['lattice_info'] = _plain(lat.info)
    st = res['state']
    out['state_aero'] = _plain({k: x for k, x in st.aero.items() if x is not None})
    out['state_results'] = _plain(st.results)
    out['settings'] = json.loads(json.dumps(_plain(res['settings'].settings, root), sort_keys=True))
    return out


def aircraft_summary(ac):
    out = {'uid': ac.uid, 'refs': _plain({k: v for k, v in ac.refs.items()}), 'wings': []}
    for w in ac.wings.values():
        out['wings'].append({
            'uid': w.uid, 'symmetry': w.symmetry, 'span': w.span, 'area': w.area,
            'segments': [{'uid': s.uid, 'vertices': _plain(dict(s.vertices)), 'geometry': _plain(dict(s.geometry)),
                          'airfoils': {k: os.path.basename(str(v)) for k, v in s.airfoils.items()},
                          'panels': _plain(dict(s.panels))} for s in w.segments.values()],
            'controls': [{'uid': c.uid, 'type': c.device_type, 'defl': c.deflection, 'defl_m': c.deflection_mirror,
                          'seg': _plain(dict(c.segment_uid)), 'rel': _plain(dict(c.rel_vertices)),
                          'hinge': _plain(dict(c.rel_hinge_vertices)), 'panels': _plain(dict(c.panels))}
                         for c in w.controls.values()]})
    return out


def state_summary(st):
    return {'aero': _plain({k: v for k, v in st.aero.items() if v is not None}), 'n': st.num_apm_entries}


def settings_summary(se, root=None):
    d = json.loads(json.dumps(_plain(se.settings, root), sort_keys=True))
    return d


def resources(root):
    """Open files below root, open figures, live objects of the code under test."""
    import matplotlib.pyplot as plt
    gc.collect()
    fds, logs = [], 0
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith(root):
            if os.path.basename(t.split(' (deleted)')[0]) == 'log.txt':
                logs += 1
            else:
                fds.append(os.path.relpath(t, root))
    live = {}
    for o in gc.get_objects():
        t = type(o)
        if (getattr(t, '__module__', None) or '').startswith('pytornado.'):
            live[t.__name__] = live.get(t.__name__, 0) + 1
    return {'fds': sorted(fds), 'logs': logs, 'figures': len(plt.get_fignums()), 'live': live}


class Ctx:
    def __init__(self, root):
        self.root = root
        self.held = []
        self.objs = {}
        self.weak = []
        self.figures = None


def _real(ctx, p):
    """'@/x' is x below the simulated root; anything else is passed on as it is."""
    return os.path.join(ctx.root, p[2:]) if p.startswith('@/') else p


def do_run(ctx, s):
    from pytornado.stdfun.run import standard_run, StdRunArgs
    v = s.get('verb') or (seams.RT and seams.RT.knobs.get('verb'))
    flags = s['flags'] if 'flags' in s else {v: True} if v else {}
    args = StdRunArgs(run=_real(ctx, s['settings']), **flags)
    rt = seams.RT
    seen = len(rt.shown) if rt else 0
    res = standard_run(args)
    if s.get('as'):
        ctx.objs['settings'], ctx.objs['state'] = res['settings'], res['state']
    if s.get('hold'):
        ctx.held.append((res, copy.deepcopy(summary(res, ctx.root))))
    if s.get('track'):
        import weakref
        lat, v = res['lattice'], res['vlmdata']
        objs = [lat, v, res['state'], res['settings']] + [getattr(lat, n) for n in 'pvcna'] + \
            [lat.bound_leg_midpoints, v.matrix_downwash, v.array_rhs, v.matrix_lu] + \
            [x for x in v.panelwise.values() if isinstance(x, np.ndarray)]
        names = ['lattice', 'vlmdata', 'state', 'settings'] + ['lattice.' + n for n in 'pvcna'] + \
            ['lattice.bound_leg_midpoints', 'matrix_downwash', 'array_rhs', 'matrix_lu'] + \
            ['panelwise.' + k for k, x in v.panelwise.items() if isinstance(x, np.ndarray)]
        for n, o in zip(names, objs):
            if o is not None:
                ctx.weak.append((n, weakref.ref(o)))
    if not s.get('data', True):
        return None
    out = summary(res, ctx.root)
    if rt and rt.shown[seen:]:
        out['shown'] = rt.shown[seen:]
    return out


def do_cli(ctx, s):
    """The command-line script with its own __main__ namespace."""
    path = os.path.join(CODE, 'src', 'bin', '_pytornado_exe.py')
    rt, seams.RT = seams.RT, None
    try:
        with open(path) as fp:
            code = compile(fp.read(), path, 'exec')
    finally:
        seams.RT = rt
    old = sys.argv
    sys.argv = ['pytornado'] + [_real(ctx, x) for x in s['argv']]
    v = s.get('verb') or (rt and rt.knobs.get('verb'))
    if v and not any(x in VERBOSITY for x in s['argv']):
        sys.argv.append('--' + v)
    try:
        exec(code, {'__name__': '__main__', '__file__': path})
    finally:
        if rt is not None:
            rt.drain(True)
        sys.argv = old


def do_clean(ctx, s):
    from pytornado.stdfun.run import get_settings, clean_project_dir
    for _ in range(s.get('times', 1)):
        clean_project_dir(get_settings(_real(ctx, s['settings'])))


def do_template(ctx, s):
    from pytornado.stdfun.setup import setup_wkdir
    f = None
    if s.get('db'):
        from pytornado.database.tools import get_aircraft_file_path
        f = get_aircraft_file_path(s['db'])
    return os.path.relpath(os.path.realpath(setup_wkdir(f)), ctx.root)


def _settings(ctx, s):
    from pytornado.fileio import native
    key = 'settings:' + s['settings']
    if key not in ctx.objs or s.get('fresh', True):
        ctx.objs[key] = native.settings.load(_real(ctx, s['settings']))
    return ctx.objs[key]


def do_load(ctx, s):
    """Load aircraft/state/settings into the context; the value is a plain summary."""
    from pytornado.fileio import native
    name = s.get('as', s['kind'])
    if s['kind'] == 'settings':
        o = native.settings.load(_real(ctx, s['settings']))
        ctx.objs[name] = o
        return settings_summary(o, ctx.root)
    se = _settings(ctx, s)
    if s['kind'] == 'aircraft':
        o = native.aircraft.load(se)
        ctx.objs[name] = o
        return aircraft_summary(o)
    o = native.state.load(se)
    ctx.objs[name] = o
    return state_summary(o)


def do_edit(ctx, s):
    """Change an object in memory the way a user script does."""
    o = ctx.objs[s['obj']]
    if s['kind'] == 'state':
        for k, v in s['set'].items():
            o.aero[k] = np.array(v, dtype=float)
    elif s['kind'] == 'settings':
        for k, v in s['set'].items():
            o.settings[k] = v
    else:
        for k, v in s['set'].items():
            if k == 'uid':
                o.uid = v
            elif k in ('area', 'span', 'chord'):
                o.refs[k] = v
            elif k == 'panels':
                for w in o.wings.values():
                    for g in w.segments.values():
                        g.panels['num_c'] = v


def do_use(ctx, s):
    """Panel the loaded model for every flight state, as an analysis does."""
    from pytornado.aero import vlm
    from pytornado.fileio import native
    ac, se, st = ctx.objs['aircraft'], ctx.objs['settings'], ctx.objs['state']
    if se.settings['deformation']:
        native.deformation.load(ac, se)
    vlm.set_autopanels(ac, se)
    for i, cur in enumerate(st.iter_states()):
        cur.refs = ac.refs
        vlm.gen_lattice(ac, cur, se, i == 0 and ctx.objs.get('subareas') is not ac)
        ctx.objs['subareas'] = ac


def obj_summary(ctx, kind, o):
    return {'aircraft': aircraft_summary, 'state': state_summary,
            'settings': lambda x: settings_summary(x, ctx.root)}[kind](o)


def do_save(ctx, s):
    from pytornado.fileio import native
    o = ctx.objs[s['obj']]
    if s['kind'] == 'settings':
        return native.settings.save(o)
    se = ctx.objs.get(s.get('with', '')) or _settings(ctx, s)
    if s['kind'] == 'aircraft':
        return native.aircraft.save(o, se)
    return native.state.save(o, se)


def do_inspect(ctx, s):
    return obj_summary(ctx, s['kind'], ctx.objs[s['obj']])


def do_drop(ctx, s):
    """Forget everything, collect, report what is still alive."""
    ctx.held.clear()
    ctx.objs.clear()
    r = resources(ctx.root)
    alive = {}
    for n, w in ctx.weak:
        if w() is not None:
            alive[n] = alive.get(n, 0) + 1
    r['alive'] = alive
    return r


def do_held(ctx, s):
    """Are the results returned earlier still what they were?"""
    for i, (res, was) in enumerate(ctx.held):
        d = compare.same_data(summary(res, ctx.root), was)
        if d:
            return f'result of earlier analysis {i} changed afterwards: {d}'
    return None


def do_vanish(ctx, s):
    rt, seams.RT = seams.RT, None
    try:
        os.unlink(os.path.join(ctx.root, s['file']))
    finally:
        seams.RT = rt


def do_process(ctx, s):
    """What calls could leave changed in the process of the caller."""
    import atexit
    import decimal
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings
    import matplotlib
    import matplotlib.pyplot as plt
    rt, seams.RT = seams.RT, None
    try:
        if s.get('own'):
            # settings the caller has made
            np.seterr(over='print', under='ignore', invalid='print', divide='ignore')
            np.set_printoptions(precision=3, suppress=True)
            random.seed(99)
            np.random.seed(98)
            matplotlib.rcParams['font.size'] = 7.0
            decimal.getcontext().prec = 11
            sys.argv = ['analyse.py', '--all']
            warnings.simplefilter('always', UserWarning)
            os.environ['OMP_NUM_THREADS'] = '5'
            gc.set_threshold(5000, 9, 9)
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
            for n in (signal.SIGINT, signal.SIGHUP, signal.SIGUSR1, signal.SIGCHLD):
                signal.signal(n, own_handler)
            os.umask(0o007)
            plt.switch_backend('svg')
            plt.figure('mine', figsize=(1, 1)).add_subplot(111).plot([1, 2])
            plt.figure(5, figsize=(1, 1)).add_subplot(121).set_title('mine')
            sys.setrecursionlimit(1234)
        mask = os.umask(0)
        os.umask(mask)
        st = np.random.get_state()
        ctx.figures = ctx.figures or plt.get_fignums()
        return {
            'current directory': os.getcwd(), 'environment': dict(os.environ), 'umask': oct(mask),
            'signal handlers': [repr(signal.getsignal(n)).split(' at 0x')[0] for n in sorted(signal.valid_signals())],
            'standard streams': [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)], 'hooks': [repr(x).split(' at 0x')[0] for x in (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook)],
            'search path': list(sys.path), 'arguments': list(sys.argv), 'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
            'random generator': hash(random.getstate()), 'numpy random generator': [str(st[0]), hash(st[1].tobytes()), st[2], st[3], st[4]],
            'floating-point error handling': np.geterr(), 'print options': repr(sorted(np.get_printoptions().items(), key=str)),
            'decimal context': repr(decimal.getcontext()), 'locale': locale.setlocale(locale.LC_ALL), 'warning filters': repr(warnings.filters),
            'collector': [gc.isenabled(), gc.get_threshold()], 'threads': sorted(t.name for t in threading.enumerate()),
            'exit handlers': atexit._ncallbacks(), 'plot settings': {k: repr(v) for k, v in matplotlib.rcParams.items()}, 'plot backend': matplotlib.get_backend(), 'interactive': plt.isinteractive(),
            'figures of the caller': [n for n in ctx.figures if n in plt.get_fignums()], 'current figure': plt.get_fignums() and plt.gcf().number,
            'content of figures': {n: [(a.get_title(), len(a.lines)) for a in matplotlib._pylab_helpers.Gcf.figs[n].canvas.figure.axes] if n in plt.get_fignums() else None for n in ctx.figures},
            'matplotlib registries': [len(matplotlib.colormaps), len(matplotlib.style.library), len(matplotlib.projections.projection_registry._all_projection_types)],
            'log disabled': logging.root.manager.disable, 'builtins': sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'),
        }
    finally:
        seams.RT = rt


def do_spoil(ctx, s):
    """The user leaves an input file in a bad state."""
    from .props.c04 import break_input
    rt, seams.RT = seams.RT, None
    try:
        break_input(os.path.join(ctx.root, s['file']), s['how'])
    finally:
        seams.RT = rt


def do_readall(ctx, s):
    """What a process reading the files meanwhile gets, piece by piece."""
    out = {}
    for rel in s['files']:
        try:
            with open(os.path.join(ctx.root, rel), 'rb') as fp:
                data = b''
                while True:
                    b = fp.read(200)
                    if not b:
                        break
                    data += b
                out[rel] = data
        except FileNotFoundError:
            pass
    return out


def do_snap(ctx, s):
    rt = seams.RT
    return compare.snapshot(os.path.join(ctx.root, s.get('dir', '')))


def do_chdir(ctx, s):
    os.chdir(os.path.join(ctx.root, s['dir']))


def do_put(ctx, s):
    """The user (another program) replaces the content of a project between two analyses."""
    import shutil
    from . import project
    rt, seams.RT = seams.RT, None
    try:
        d = os.path.join(ctx.root, s['dir'])
        for n in ('_results', '_plots', 'aircraft', 'state', 'airfoils', 'deformation', 'settings'):
            if os.path.isdir(os.path.join(d, n)):
                shutil.rmtree(os.path.join(d, n))
        project.write_project(s['project'], d)
        if s.get('mtime') is not None:
            for b, _, fs in os.walk(d):
                for f in fs:
                    os.utime(os.path.join(b, f), (s['mtime'], s['mtime']))
    finally:
        seams.RT = rt


def _usage():
    """(interpreter objects alive, bytes obtained from malloc) of this process."""
    import ctypes
    gc.collect()
    sys._clear_type_cache()
    gc.collect()

    class Info(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]
    try:
        f = ctypes.CDLL(None).mallinfo2
        f.restype = Info
        i = f()
        m = i.uordblks + i.hblkhd
    except AttributeError:
        m = 0
    return sys.getallocatedblocks(), m


def do_repeat(ctx, s):
    """The same operations again and again; resource use after each round (nothing else is kept)."""
    rt = seams.RT
    keep, rt.trace = rt.trace, _Sink()
    n = len(rt.fired)
    use = [None] * s['rounds']
    errors = 0
    for k in range(s['rounds']):
        for _ in range(s['times']):
            for st in s['steps']:
                r = run_step(ctx, st)
                errors += not r['ok']
                r = None
            ctx.held.clear()
            ctx.objs.clear()
            ctx.weak.clear()
            rt.infos.clear()
            rt.snaps.clear()
            rt.libs.clear()
            if k:
                del rt.fired[n:]
            n = len(rt.fired)
        use[k] = _usage()
    rt.trace = keep
    return {'use': use, 'errors': errors}


class _Sink(list):
    def append(self, x):
        pass


def do_faults(ctx, s):
    """Switch all remaining faults off (from here on the environment is healthy)."""
    rt = seams.RT
    rt.faults = [dict(f, _seen=0, _fired=0) for f in s.get('faults', ())]


def do_cpacs2json(ctx, s):
    from pytornado.stdfun.setup import cpacs2pytornado
    cpacs2pytornado(_real(ctx, s['file']))


def do_cload(ctx, s):
    """Load a model or the flight states from the CPACS file of a project."""
    from pytornado.fileio import cpacs
    se = _settings(ctx, s)
    if s['kind'] == 'aircraft':
        ctx.objs[s.get('as', 'aircraft')] = o = cpacs.aircraft.load(se)
        return aircraft_summary(o)
    ctx.objs[s.get('as', 'state')] = o = cpacs.state.load(se)
    return state_summary(o)


def do_handles(ctx, s):
    from . import stubs
    return stubs.handles()


STEPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('do_')}


def run_step(ctx, s):
    rt = seams.RT
    n0 = rt.n_ops if rt else 0
    f0 = len(rt.fired) if rt else 0
    out = {'do': s['do']}
    try:
        out['value'] = STEPS[s['do']](ctx, s)
        out['ok'] = True
    except (seams.Budget, sched.Deadlock):
        raise
    except SystemExit as e:
        out['code'] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        out['ok'] = out['code'] == 0
        out['exc'] = 'SystemExit'
        out['msg'] = str(e.code)[:200]
    except seams.HarnessError:
        raise
    except BaseException as e:
        out['ok'] = False
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:300]
        if os.environ.get('SIM_TB'):
            import traceback
            out['tb'] = traceback.format_exc()
        e = None
    if rt:
        out['ops'] = (n0, rt.n_ops)
        out['fired'] = len(rt.fired) - f0
    return out
