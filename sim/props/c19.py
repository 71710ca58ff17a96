"""C19: converting a CPACS aircraft into the native format is faithful and all-or-nothing."""
import json
import os

from .. import compare, cpacs as C, faults as F, monitors as M, project as P
from ..base import Prop, STD_DIRS, Violation, check_monitor, describe, digest, need_done
from .c07 import keys

XML, OUT = 'p/aircraft/ac.xml', 'p/aircraft/ac.json'
SETT = '@/p/settings/main.json'
NAT = '@/p/settings/native.json'


def native_states(proj):
    """The flight states of the project as a native state file."""
    if proj['settings']['main']['state'].lower() != '__cpacs':
        return proj['state']['st.json']
    a = {k: list(v) for k, v in P.aero_of(proj).items()}
    a.update({'rate_' + k: [0] * len(a['alpha']) for k in 'PQR'})
    return {'aero': a}


class C19(Prop):
    id = 'C19'
    quick, thorough = 2000, 24000
    list_paths = [['faults'], ['switches'], ['foreign']]
    project_paths = []
    real = ['pytornado package (Python) including its CPACS modules', 'pytornado command line script', 'compiled VLM kernel c_vlm', 'LAPACK dgesv', 'CPython file objects']
    stubbed = ['TiXI and TiGL (external libraries, absent here): stand-ins with real XML documents on the simulated disk',
               'file system calls: real files in a scratch directory behind a fault-injecting, scheduling seam',
               'clock, process id, random names: simulated']
    rule = ('case = random CPACS project (wings, flaps, airfoils, maps) with or without an earlier native model and airfoil files x conversion by '
            'function or command line, alone, next to a process loading the native model, or twice at once, under a seeded schedule x fault (file '
            'operation, library call, memory, cancellation or crash at any operation or source line, full disk); native model, airfoils and CPACS '
            'file checked at every operation; after a success the native model is loaded and analysed and compared with the CPACS aircraft; '
            'non-trivial when a fault struck, a schedule or an earlier model was there; distinct by (project, surroundings, faults, schedule)')
    key_rule = 'distinct (project, surroundings, fault placement, schedule) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        proj = C.gen(prng)
        proj['settings']['native'] = dict(proj['settings']['main'], aircraft='ac.json', state='native.json')
        proj['state']['native.json'] = native_states(proj)
        mode = rng.choice(['one', 'one', 'one', 'one', 'loader', 'two'])
        spec = {'project': proj, 'mode': mode, 'cli': rng.random() < 0.5, 'faults': [], 'switches': [], 'knobs': F.knobs(rng),
                'old': mode == 'loader' or rng.random() < 0.5, 'oldfoils': mode == 'loader' or rng.random() < 0.4, 'link': mode == 'one' and rng.random() < 0.1,
                'foreign': [x for x in ('aircraft/other.json', 'airfoils/blade.mine', 'notes.txt', '_results/main_000/global.json', 'ac.json', 'aircraft/ac.json.bak')
                            if rng.random() < 0.4]}
        if mode != 'one':
            from .c03 import switches
            spec['switches'] = switches(rng, 2, 100)
        if rng.random() < (0.85 if mode == 'one' else 0.35):
            ref = self.reference(world, proj)
            k = rng.choice(['op', 'op', 'op', 'full', 'lib', 'lib', 'line', 'line', 'alloc'])
            if k == 'op':
                f = F.op_fault(rng, ref['trace'], exclude=['*log.txt'])
            elif k == 'full':
                f = F.disk_full(rng, ref['trace'])
            elif k == 'lib':
                f = C.lib_fault(rng, ref['libs'])
                if rng.random() < 0.4:
                    f = {'on': 'cpacs', 'nth': rng.randint(1, max(1, ref['stats']['cpacs'])), 'act': rng.choice(['kbd', 'memerr', 'crash'])}
            elif k == 'line':
                f = F.line_fault(rng, self.reference(world, proj, True)['cover'], ['kbd', 'memerr', 'crash'])
            else:
                f = {'on': 'alloc', 'nth': rng.randint(1, max(1, ref['stats']['alloc'])), 'act': 'memerr'}
            spec['faults'] = [f] if f else []
        return spec

    def steps(self, cli):
        do = {'do': 'cli', 'argv': ['--cpacs2json', 'aircraft/ac.xml']} if cli else {'do': 'cpacs2json', 'file': '@/' + XML}
        return [do, {'do': 'handles'}]

    def reference(self, world, proj, lines=False):
        """Undisturbed conversion: model file, airfoils, trace; the converted aircraft against the CPACS one."""
        def fn():
            env = world.env()
            P.write_project(proj, env.path('p'))
            os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
            r = env.node(self.steps(False), cwd='p', lines=lines)
            if r['status'] != 'done' or not r['steps'][0]['ok']:
                raise Violation('conversion-fails', describe(r))
            if r['steps'][1]['value']:
                raise Violation('handle-leak', f'after an undisturbed conversion: {r["steps"][1]["value"]}')
            tree = env.snap('p')
            out = {'trace': r['trace'], 'stats': r['stats'], 'libs': r['libs'], 'cover': r.get('cover'), 'model': M.real_content(env.path(OUT)),
                   'foils': {k: v for k, v in tree.items() if k.startswith('airfoils/')}}
            if out['model'] is None:
                raise Violation('conversion-fails', 'no native model after a successful conversion')
            self.faithful(env)
            for n, pts in proj['cpacs']['ac.xml']['foils'].items():
                got = out['foils'].get('airfoils/blade.' + n)
                if got is None:
                    raise Violation('unfaithful-conversion', f'airfoil {n} was not written')
                rows = [[float(x) for x in ln.split()] for ln in got[1].decode().splitlines()[1:]]
                if len(rows) != len(pts) or max(abs(a - b) for r, p in zip(rows, pts) for a, b in zip(r, p)) > 2e-6:
                    raise Violation('unfaithful-conversion', f'airfoil {n}: the coordinates are not those of the CPACS file')
            env.close()
            return out
        return world.cached(['c19', proj, lines], fn)

    def faithful(self, env):
        """The native model is the CPACS aircraft."""
        r = env.node([{'do': 'cload', 'settings': SETT, 'kind': 'aircraft'}, {'do': 'load', 'settings': NAT, 'kind': 'aircraft'},
                      {'do': 'run', 'settings': SETT}, {'do': 'run', 'settings': NAT}])
        need_done(r, 'loading and analysing the converted model', crash_ok=False)
        bad = [s for s in r['steps'] if not s['ok']]
        if bad:
            raise Violation('conversion-unusable', f'{bad[0]["do"]}: {bad[0].get("exc")} {bad[0].get("msg")}')
        a, b = r['steps'][0]['value'], r['steps'][1]['value']
        if keys(a) != keys(b):
            raise Violation('unfaithful-conversion', f'structure of the native model: {sorted(set(keys(a)) ^ set(keys(b)))[:3]}')
        d = compare.same_values(b, a)
        if d:
            raise Violation('unfaithful-conversion', f'the native model differs from the CPACS aircraft: {d}')
        skip = ('settings', 'state_aero', 'state_results')
        x, y = [{k: v for k, v in r['steps'][i]['value'].items() if k not in skip} for i in (2, 3)]
        d = compare.same_data(y, x)
        if d:
            raise Violation('unfaithful-conversion', f'analysis of the native model: {d}')

    def execute(self, world, spec):
        proj = spec['project']
        ref = self.reference(world, proj)
        env = world.env()
        P.write_project(dict(proj, foreign={k: 'mine ' + k for k in spec['foreign']}), env.path('p'))
        os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
        old = None
        if spec['old']:
            m = json.loads(ref['model'])
            m['refs']['area'] = 1.25 * m['refs']['area'] + 1
            m['uid'] = 'earlier' * 400
            old = json.dumps(m).encode()
            with open(env.path(OUT), 'wb') as fp:
                fp.write(old)
        oldfoil = P.BLADE.format(name='earlier', u1=.012, u2=.03, u3=.04, u4=.03, l1=-.01, l2=-.02, l3=-.03, l4=-.02).encode()
        if spec['oldfoils']:
            for k in ref['foils']:
                with open(env.path('p', k), 'wb') as fp:
                    fp.write(oldfoil)
        if spec['link']:
            os.makedirs(env.path('shared'))
            for f in ([OUT] if spec['old'] else []) + [XML]:
                os.rename(env.path(f), env.path('shared', os.path.basename(f)))
                os.symlink('../../shared/' + os.path.basename(f), env.path(f))
        before = env.snap()

        def ok(rel, kind):
            d, b = os.path.split(rel)
            if kind == 'mkdir':
                return rel in ('airfoils', 'aircraft') or spec['mode'] == 'loader' and (rel in STD_DIRS or rel.startswith('_'))
            return rel == 'log.txt' or rel == 'aircraft/ac.json' or d == 'aircraft' and (b.startswith('.') or 'tmp' in b) or \
                d == 'airfoils' and (rel in ref['foils'] or b.startswith('.') or 'tmp' in b)

        def check(rel, data):
            if rel == XML:
                return None if data == world_xml else 'the CPACS file was changed'
            if rel == OUT:
                return None if data in (old, ref['model']) else f'neither the previous nor the complete new model: {None if data is None else len(data)} bytes'
            return None if data == ref['foils'][rel[2:]][1] or data == (oldfoil if spec['oldfoils'] else None) else \
                f'neither the previous nor the complete new airfoil: {None if data is None else len(data)} bytes'
        world_xml = M.real_content(env.path(XML))
        mon = [M.Watch(env.root, [XML, OUT] + ['p/' + k for k in ref['foils']], check, 'torn-conversion')]
        if not spec['link']:
            mon.append(M.allowed('p', ok))
        n1 = {'steps': self.steps(spec['cli']), 'faults': spec['faults'], 'cwd': 'p'}
        if spec['mode'] == 'one':
            res = [env.node(n1['steps'], faults=spec['faults'], knobs=spec['knobs'], monitors=mon, cwd='p')]
            order = []
        else:
            n2 = {'steps': self.steps(not spec['cli']), 'cwd': 'p'} if spec['mode'] == 'two' else \
                {'steps': [{'do': 'load', 'settings': NAT, 'kind': 'aircraft'}] * 5}
            res, _, order = env.processes([n1, n2], spec['switches'], knobs=spec['knobs'], monitors=mon)
        fired = []
        for i, r in enumerate(res):
            need_done(r, f'conversion {i}', crash_ok=i == 0)
            check_monitor(r)
            fired += [f for f in r['fired'] if f[0] != 'clock_jump']
        what = f'{fired[:1]}: ' if fired else ''
        for rel in [XML, OUT] + ['p/' + k for k in ref['foils']]:
            e = check(rel, M.real_content(env.path(rel)))
            if e:
                raise Violation('torn-conversion', f'{what}{rel} after the end ({describe(res[0])}): {e}')
        after = env.snap()
        for rel, v in before.items():
            if rel not in (OUT, 'shared/ac.json') and rel[2:] not in ref['foils'] and after.get(rel) != v:
                raise Violation('touched-user-data', f'{what}{rel} {"changed" if rel in after else "vanished"} by the conversion')
        done = []
        for i, r in enumerate(res):
            for s in r['steps']:
                if s['do'] == 'handles':
                    # an asynchronous interruption right after a handle was opened is beyond any code
                    if s.get('value') and not any(f[1] == 'line' for f in fired):
                        raise Violation('handle-leak', f'{what}conversion ends with {describe(r)}, but {s["value"]} are still open')
                elif s['do'] == 'load':
                    if not s['ok']:
                        raise Violation('load-fails', f'loading the native model meanwhile: {s.get("exc")} {s.get("msg")}')
                else:
                    if s['ok']:
                        done.append(i)
                    elif i > 0 or not fired:
                        raise Violation('conversion-fails', f'{what}{describe(r)}')
        final = M.real_content(env.path(OUT))
        if done:
            if final != ref['model']:
                raise Violation('lost-conversion', f'{what}success is reported, the native model is not the new one')
            for k, v in ref['foils'].items():
                if M.real_content(env.path('p', k)) != v[1]:
                    raise Violation('lost-conversion', f'{what}success is reported, {k} is not the airfoil of the CPACS file')
            if spec['mode'] == 'one' and any(f[0] == 'kbd' for f in fired):
                raise Violation('swallowed-cancellation', f'{what}the conversion goes on after the user cancelled it')
        # (a link that cannot be looked at cannot be seen to be one)
        if spec['link'] and not any(f[2] == 'stat' for f in fired) and spec['old'] and not os.path.islink(env.path(OUT)):
            raise Violation('link-replaced', f'{OUT} was a link to a shared file')
        if not done or fired:
            r = env.node(self.steps(spec['cli']), cwd='p')
            need_done(r, 'conversion again', crash_ok=False)
            if not r['steps'][0]['ok']:
                raise Violation('no-recovery', f'{what}converting again fails: {describe(r)}')
            if M.real_content(env.path(OUT)) != ref['model'] or any(M.real_content(env.path('p', k)) != v[1] for k, v in ref['foils'].items()):
                raise Violation('no-recovery', f'{what}converting again does not give the undisturbed outcome')
        return {'key': digest([proj, spec['mode'], spec['old'], spec['oldfoils'], spec['link'], [f[:4] for f in fired], order]),
                'nontrivial': bool(fired) or spec['old'] or bool(spec['switches']),
                'classes': [spec['mode'], 'earlier model' if spec['old'] else 'no model'] + [f[0].split(':')[0] + '@' + f[1] for f in fired[:1]]}


PROP = C19()
