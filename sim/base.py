"""Shared parts of all property checks."""
import collections
import hashlib
import json
import random

from . import compare, faults as F, host, project as P, seams


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f'{cls}: {detail}')
        self.cls, self.detail = cls, detail


class World:
    """What a property check gets: a scratch base, a reference cache, counters."""

    def __init__(self, base):
        self.base = base
        self.n = 0
        self.refs = collections.OrderedDict()
        self.keep_traces = False
        self.envs = []

    def env(self):
        self.n += 1
        e = host.Env(self.base, f'd{self.n}')
        e.keep_traces = self.keep_traces
        self.envs.append(e)
        return e

    def peer(self):
        """Another interpreter, with another hash seed."""
        if getattr(self, '_peer', None) is None:
            from . import peer
            import os
            self._peer = peer.Peer(os.environ['SIM_OVERLAY'], self.base, 7001 + 13 * int(os.environ.get('PYTHONHASHSEED') or 0))
        return self._peer

    def cached(self, key, fn):
        h = hashlib.sha256(json.dumps(key, sort_keys=True).encode()).hexdigest()
        if h in self.refs:
            self.refs.move_to_end(h)
            return self.refs[h]
        n = len(self.envs)
        try:
            v = fn()
        finally:
            for e in self.envs[n:]:
                e.keep_traces, e.traces = False, []      # a reference may come from the cache: not part of this execution
        self.refs[h] = v
        while len(self.refs) > 40:
            self.refs.popitem(last=False)
        return v

    def reference(self, proj, name='main', lines=False, how='run'):
        """Undisturbed analysis in a fresh process: outputs, data, trace."""
        def fn():
            env = self.env()
            try:
                P.write_project(proj, env.path('p'))
                before = env.snap('p')
                step = {'do': 'run', 'settings': env.path('p', 'settings', name + '.json')}
                r = env.node([step], lines=lines)
                after = env.snap('p')
                if r['status'] != 'done' or not r['steps'][0]['ok']:
                    raise Violation('undisturbed-failure', describe(r))
                return {'before': before, 'after': after, 'data': r['steps'][0]['value'], 'trace': r['trace'], 'cover': r.get('cover'),
                        'stats': r['stats'], 'libs': r.get('libs', []), 'results': compare.sub(after, '_results'), 'plots': compare.sub(after, '_plots')}
            finally:
                env.close()
        return self.cached(['ref', proj, name, lines], fn)


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def describe(r):
    if r['status'] != 'done':
        return f"{r['status']} {r.get('error', '')}"
    for s in r['steps']:
        if not s['ok']:
            return f"{s['do']}: {s.get('exc')} {s.get('msg', '')} (code {s.get('code')})"
    return 'ok'


def need_done(r, what, crash_ok=True):
    """A node must end by itself (or by an injected crash); anything else is a violation."""
    st = r['status']
    if st == 'done' or (st == 'crash' and crash_ok):
        return
    if st == 'budget':
        raise Violation('no-progress', f'{what} does not terminate: {r.get("error")}')
    if st == 'deadlock':
        raise Violation('deadlock', f'{what}: {r.get("error")}')
    if st == 'died':
        raise Violation('process-death', f'{what}: {r.get("error")}')
    raise seams.HarnessError(f'{what}: status {st} {r.get("error")}')


def check_monitor(r):
    for v in r.get('violations', ()):
        raise Violation(v[0], v[1])


def owned(name):
    """Paths an analysis under settings <name> may create or change, below the project."""
    import re
    pats = [re.compile(r'^log\.txt$'), re.compile(rf'^_results/{re.escape(name)}_\d+(/.*)?$'),
            re.compile(rf'^_plots/{re.escape(name)}_\d+(/.*)?$'),
            re.compile(rf'^_results/\.?{re.escape(name)}_aeroperformance\.json[^/]*$'),
            # temporary names next to the final ones
            re.compile(r'^_results/[^/]*tmp[^/]*$'), re.compile(r'^_results/\.[^/]+$')]
    return lambda rel: any(p.match(rel) for p in pats)


STD_DIRS = {'aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results'}


def shrink_list(spec, path):
    """Candidates with one element (or a half) of the list at path removed."""
    node = spec
    for k in path:
        if isinstance(node, dict) and k not in node:
            return
        node = node[k]
    if not isinstance(node, list):
        return
    n = len(node)
    cuts = []
    if n > 3:
        cuts += [(0, n // 2), (n // 2, n)]
    cuts += [(i, i + 1) for i in reversed(range(n))]
    for a, b in cuts:
        c = json.loads(json.dumps(spec))
        t = c
        for k in path:
            t = t[k]
        del t[a:b]
        yield c


def shrink_projects(spec, path):
    """Simplify a project: fewer states, no controls, fewer wings/segments, fewer outputs."""
    def get(c):
        t = c
        for k in path:
            t = t[k]
        return t
    base = get(spec)

    def clone():
        c = json.loads(json.dumps(spec))
        return c, get(c)
    for sname, st in base['state'].items():
        n = P.n_states(st)
        if n > 1:
            for i in reversed(range(n)):
                c, p = clone()
                p['state'][sname] = P.take_states(st, [j for j in range(n) if j != i])
                yield c
    for an, ac in base['aircraft'].items():
        for wi, w in enumerate(ac['wings']):
            if w.get('controls'):
                c, p = clone()
                p['aircraft'][an]['wings'][wi].pop('controls')
                yield c
            if len(w['segments']) > 1:
                c, p = clone()
                ww = p['aircraft'][an]['wings'][wi]
                ww['segments'] = ww['segments'][:1]
                ww.pop('controls', None)
                yield c
        if len(ac['wings']) > 1:
            c, p = clone()
            p['aircraft'][an]['wings'] = ac['wings'][:1]
            for d in p.get('deformation', {}).values():
                for k in list(d):
                    if k.startswith('wing1'):
                        del d[k]
            yield c
    for name, se in base['settings'].items():
        for k, v in se['save_results'].items():
            if v:
                c, p = clone()
                p['settings'][name]['save_results'][k] = False
                yield c
        if se.get('plot') and not any(x['save'] or x['show'] for x in se['plot'].values()):
            c, p = clone()
            del p['settings'][name]['plot']
            yield c
        if se.get('deformation'):
            c, p = clone()
            del p['settings'][name]['deformation']
            p['deformation'] = {}
            yield c
        for k in ('vlm_autopanels_s', 'vlm_autopanels_c'):
            if se.get(k, 1) > 1:
                c, p = clone()
                p['settings'][name][k] = 1
                yield c


class Prop:
    id = None
    per_project = 6          # consecutive seeds that share a project (and its reference run)
    quick, thorough = 600, 6000
    list_paths = [['faults'], ['switches']]
    project_paths = [['project']]
    real = ['pytornado package (Python)', 'pytornado command line script', 'compiled VLM kernel c_vlm', 'LAPACK dgesv', 'CPython file objects, buffering and encoding']
    stubbed = ['file system calls: real files in a scratch directory behind a fault-injecting, scheduling seam',
               'clock, process id, random names: simulated', 'matplotlib rasterisation and filled polygons: stand-in (writer, counter)']
    rule = ''

    def rngs(self, vseed, seed):
        return (random.Random(f'{vseed}/{self.id}/project/{seed // self.per_project}'),
                random.Random(f'{vseed}/{self.id}/run/{seed}'))

    def generate(self, world, vseed, seed, tier):
        raise NotImplementedError

    def execute(self, world, spec):
        """Raise Violation, or return an info dict {'key': distinctness key, 'nontrivial': bool, ...}."""
        raise NotImplementedError

    def shrinks(self, spec):
        for p in self.list_paths:
            yield from shrink_list(spec, p)
        for p in self.project_paths:
            try:
                yield from shrink_projects(spec, p)
            except (KeyError, IndexError, TypeError):
                pass
        for k in ('knobs',):
            if spec.get(k):
                for kk in list(spec[k]):
                    c = json.loads(json.dumps(spec))
                    del c[k][kk]
                    yield c

    # -- one simulation, with its accounting
    def simulate(self, world, spec):
        world.envs = []
        out = {'violation': None}
        try:
            info = self.execute(world, spec) or {}
            out['info'] = info
        except Violation as v:
            out['violation'] = {'class': v.cls, 'detail': v.detail}
            out['info'] = {}
        finally:
            st = collections.Counter()
            fired = collections.Counter()
            nodes = 0
            for e in world.envs:
                st.update(e.stats)
                nodes += e.nodes
                for f in e.fired:
                    fired[f'{f[0]}@{f[1]}' + (f'/{f[2]}' if f[1] == 'op' else '') if f[0] != 'clock_jump' else 'clock_jump'] += 1
                e.close()
            out['stats'] = dict(st)
            out['fired'] = dict(fired)
            out['nodes'] = nodes
            if world.keep_traces:
                out['traces'] = [e.traces for e in world.envs if e.traces]
        return out

    def minimise(self, world, spec, cls, budget=80, seconds=60):
        import time
        t0 = time.monotonic()
        tried = 0
        progress = True
        while progress and tried < budget and time.monotonic() - t0 < seconds:
            progress = False
            for cand in self.shrinks(spec):
                tried += 1
                if tried >= budget or time.monotonic() - t0 > seconds:
                    break
                try:
                    r = self.simulate(world, cand)
                except (seams.HarnessError, KeyError, IndexError, ValueError):
                    continue
                if r['violation'] and r['violation']['class'] == cls:
                    spec = cand
                    progress = True
                    break
        return spec, tried


# ---------------------------------------------------------------------------- independent expectations

SAVE_FILE = {'global': 'global.json', 'panelwise': 'panelwise.dat', 'matrix_system': 'matrix.dat'}
PLOT_KEYS = ('geometry', 'lattice', 'matrix_downwash', 'results')


def expected_results(proj, name='main'):
    """Names of the result files the settings ask for (nothing of the code under test is used)."""
    se = proj['settings'][name]
    n = P.count(proj, name)
    out = set()
    for k in range(n):
        for key, fn in SAVE_FILE.items():
            if se['save_results'].get(key):
                out.add(f'{name}_{k:03d}/{fn}')
    if se['save_results'].get('aeroperformance'):
        out.add(f'{name}_aeroperformance.json')
    return out


def plot_families(proj, name='main'):
    """[(state, family prefix)] of the plots the settings ask to save; at least one file each."""
    se = proj['settings'][name]
    n = P.count(proj, name)
    fam = []
    for key in PLOT_KEYS:
        if (se.get('plot') or {}).get(key, {}).get('save'):
            fam.append(key)
    return n, fam


def files(tree):
    return {k for k, v in tree.items() if v[0] != 'd'}


def check_complete(proj, name, results, plots, cls='incomplete-success', exact=True, what=''):
    """Everything requested exists; nothing that was not requested was written."""
    want = expected_results(proj, name)
    have = files(results)
    miss = sorted(want - have)
    if miss:
        raise Violation(cls, f'{what}requested {miss[0]} is missing after a successful analysis')
    if exact and have - want:
        raise Violation('unrequested-output', f'{what}{sorted(have - want)[0]} was not requested')
    n, fam = plot_families(proj, name)
    pf = files(plots)
    for k in range(n):
        mine = [f for f in pf if f.startswith(f'{name}_{k:03d}/')]
        if len(mine) < len(fam):
            raise Violation(cls, f'{what}{len(fam)} kinds of plots requested for state {k}, {len(mine)} files exist')
        if not fam and mine and exact:
            raise Violation('unrequested-output', f'{what}plot {mine[0]} was not requested')
        for f in mine:
            if plots[f][0] == 'f' and not plots[f][1].endswith(b'IEND\n'):
                raise Violation(cls, f'{what}plot {f} is incomplete after a successful analysis')
    if exact:
        extra = [f for f in pf if not any(f.startswith(f'{name}_{k:03d}/') for k in range(n))]
        if extra:
            raise Violation('unrequested-output', f'{what}{extra[0]} was not requested')


def check_shown(proj, name, shown, cls='incomplete-success', what=''):
    """Every plot that is to be shown was shown for each state, and nothing else."""
    plot = proj['settings'][name].get('plot') or {}
    keys = [k for k in PLOT_KEYS if plot.get(k, {}).get('show')]
    n = P.count(proj, name)
    want = n * sum(len(plot[k].get('opt') or [0]) if k == 'results' else 1 for k in keys)
    if len(shown) < want:
        raise Violation(cls, f'{what}{keys} of {n} states are to be shown, {len(shown)} pictures were shown')
    if shown and not keys:
        raise Violation('unrequested-output', f'{what}a plot is shown: {shown[0][:80]}')


# ------------------------------------------------------------------- do the outputs agree with each other

FORCE_COLUMNS = {'Fx': ('forces', 'x'), 'Fy': ('forces', 'y'), 'Fz': ('forces', 'z'), 'FD': ('forces', 'D'), 'FC': ('forces', 'C'),
                 'FL': ('forces', 'L'), 'Mx': ('forces', 'l'), 'My': ('forces', 'm'), 'Mz': ('forces', 'n'),
                 'Cx': ('coeffs', 'x'), 'Cy': ('coeffs', 'y'), 'Cz': ('coeffs', 'z'), 'CD': ('coeffs', 'D'), 'CC': ('coeffs', 'C'),
                 'CL': ('coeffs', 'L'), 'Cl': ('coeffs', 'l'), 'Cm': ('coeffs', 'm'), 'Cn': ('coeffs', 'n')}
PRIMARY = ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')


def _near(a, b, scale, rtol):
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale)


def agreement(proj, name, res, data=None):
    """None or a text: do the result files of a finished analysis (and the data returned) agree with each other and the input?"""
    import numpy as np
    se = proj['settings'][name]
    aero = P.aero_of(proj, name)
    if se['aircraft'] in proj['aircraft']:
        refs = proj['aircraft'][se['aircraft']]['refs']
    else:
        refs = {k: proj['cpacs'][se['aircraft']]['refs'][k] for k in ('area', 'chord')}
    n = len(aero['alpha'])

    def content(rel):
        return res[rel][1] if rel in res and res[rel][0] == 'f' else None
    am = content(f'{name}_aeroperformance.json')
    apm = None
    if am is not None:
        try:
            apm = json.loads(am)
        except ValueError:
            return 'aeroperformance map is not a complete JSON file'
        for k, v in apm.items():
            if k in FORCE_COLUMNS or k in aero or k in PRIMARY:
                if len(v) != n:
                    return f'aeroperformance map: {k} has {len(v)} entries for {n} states'
        for k in list(FORCE_COLUMNS) + list(PRIMARY):
            if k not in apm:
                return f'aeroperformance map: {k} is missing'
        for k, v in aero.items():
            if any(not _near(x, y, 1e-12, 1e-9) for x, y in zip(apm[k], v)):
                return f'aeroperformance map: {k} is not the input'
    for k in range(n):
        d = f'{name}_{k:03d}/'
        last = data if k == n - 1 else None
        sets = []           # (where, aero, forces, coeffs)
        g = content(d + 'global.json')
        if g is not None:
            try:
                g = json.loads(g)
            except ValueError:
                return f'{d}global.json is not complete'
            sets.append((d + 'global.json', g['aero'], g['global_forces'], g['global_coeffs']))
            refs = dict({'span': g['refs']['span']}, **refs)
            for r in ('area', 'span', 'chord'):
                if not _near(g['refs'][r], refs[r], 1e-12, 1e-9):
                    return f'{d}global.json: reference {r} is not that of the aircraft'
        if apm is not None:
            fo = {v[1]: apm[c][k] for c, v in FORCE_COLUMNS.items() if v[0] == 'forces'}
            co = {v[1]: apm[c][k] for c, v in FORCE_COLUMNS.items() if v[0] == 'coeffs'}
            sets.append((f'aeroperformance map entry {k}', {p: apm[p][k] for p in PRIMARY}, fo, co))
        if last is not None:
            sets.append(('returned data', {p: last['state_aero'][p][k] for p in PRIMARY}, last['forces'], last['coeffs']))
        for where, ae, fo, co in sets:
            for p in PRIMARY:
                if p in aero and not _near(ae[p], aero[p][k], 1e-12, 1e-9):
                    return f'{where}: {p} is {ae[p]!r}, the input says {aero[p][k]!r}'
            q = 0.5 * ae['density'] * ae['airspeed'] ** 2
            b = {'l': refs.get('span'), 'm': refs['chord'], 'n': refs.get('span')}
            fs = max(abs(x) for x in fo.values())
            for key in fo:
                if 'span' not in refs and key in 'ln':
                    continue
                want = fo[key] / (q * refs['area'] * b.get(key, 1.0))
                sc = fs / (q * refs['area'] * b.get(key, 1.0))
                if not _near(co[key], want, sc, 1e-8):
                    return f'{where}: coefficient {key} is {co[key]!r}, the force gives {want!r}'
            body = sum(fo[x] ** 2 for x in 'xyz')
            wind = sum(fo[x] ** 2 for x in 'DCL')
            if not _near(body, wind, 0.0, 1e-8):
                return f'{where}: forces in body and wind axes differ in magnitude'
        for (w1, a1, f1, c1), (w2, a2, f2, c2) in zip(sets, sets[1:]):
            for x, y in ((a1, a2), (f1, f2), (c1, c2)):
                ks = [p for p in (PRIMARY if x is a1 else sorted(x))]
                sc = 1e-9 if x is a1 else max(abs(v) for v in y.values())
                for p in ks:
                    if p not in y or not _near(x[p], y[p], sc, 1e-9):
                        return f'{p} is {x[p]!r} in {w1} and {y.get(p)!r} in {w2}'
        pw = content(d + 'panelwise.dat')
        mx = content(d + 'matrix.dat')
        rows = mat = None
        from . import compare
        try:
            if pw is not None:
                rows = np.array(compare.parse_dat(pw))
            if mx is not None:
                mat = np.array(compare.parse_dat(mx))
        except ValueError:
            return f'{d}: a table has an incomplete row'
        if rows is not None:
            if rows.ndim != 2 or rows.shape[1] != 10:
                return f'{d}panelwise.dat: not a table of 10 columns'
            if sets:
                fo = sets[0][2]
                sc = np.abs(rows[:, 5:8]).sum()
                for i, x in enumerate('xyz'):
                    if abs(rows[:, 5 + i].sum() - fo[x]) > 1e-5 * sc:
                        return f'{d}: panel forces in {x} sum up to {rows[:, 5 + i].sum()!r}, the total is {fo[x]!r}'
            for c, (i, j) in {'vmag': (4, (1, 2, 3)), 'fmag': (8, (5, 6, 7))}.items():
                m = np.sqrt(sum(rows[:, q_] ** 2 for q_ in j))
                if np.any(np.abs(m - rows[:, i]) > 1e-5 * (np.abs(m) + np.abs(m).max() * 1e-3)):
                    return f'{d}panelwise.dat: {c} does not belong to its components'
        if mat is not None:
            if mat.ndim != 2 or mat.shape[1] != mat.shape[0] + 1:
                return f'{d}matrix.dat: not a square system and a right-hand side'
            if rows is not None:
                if len(rows) != len(mat):
                    return f'{d}: {len(rows)} panels in panelwise.dat, {len(mat)} in matrix.dat'
                lhs = mat[:, :-1] @ rows[:, 0]
                tol = 1e-5 * (np.abs(mat[:, :-1]) @ np.abs(rows[:, 0]) + np.abs(mat[:, -1]))
                if np.any(np.abs(lhs - mat[:, -1]) > tol):
                    return f'{d}: the circulations of panelwise.dat do not solve the system of matrix.dat'
        if last is not None:
            pd = last['panelwise']
            if rows is not None:
                for i, key in enumerate(('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')):
                    v = np.array(pd[key])
                    if len(v) != len(rows) or np.any(np.abs(v - rows[:, i]) > 1e-6 * (np.abs(v) + np.abs(v).max() * 1e-6) + 1e-99):
                        return f'{d}panelwise.dat: {key} is not what was returned'
            if mat is not None:
                for v, w, what in ((np.array(last['matrix']), mat[:, :-1], 'matrix'), (np.array(last['rhs']), mat[:, -1], 'right-hand side')):
                    if v.shape != w.shape or np.any(np.abs(v - w) > 1e-6 * (np.abs(v) + np.abs(v).max() * 1e-6) + 1e-99):
                        return f'{d}matrix.dat: the {what} is not what was returned'
    return None
