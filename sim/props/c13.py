"""C13: CPACS files are updated all-or-nothing, and every handle is closed."""
import fnmatch
import json
import os

from .. import compare, cpacs as C, faults as F, monitors as M, project as P
from ..base import Prop, Violation, check_monitor, describe, digest, need_done

FILE = 'p/aircraft/ac.xml'



class C13(Prop):
    id = 'C13'
    quick, thorough = 1800, 30000
    project_paths = []
    real = ['pytornado package (Python) including its CPACS modules', 'compiled VLM kernel c_vlm', 'LAPACK dgesv', 'CPython file objects']
    stubbed = ['TiXI and TiGL (external libraries, absent here): stand-ins with real XML documents on the simulated disk',
               'file system calls: real files in a scratch directory behind a fault-injecting, scheduling seam',
               'clock, process id, random names: simulated', 'matplotlib rasterisation and filled polygons: stand-in (writer, counter)']
    rule = ('case = random CPACS project (wings, flaps, several aeroperformance maps, earlier results, foreign content) x analysis with or without '
            'write-back (the file possibly edited by somebody else while the states are computed), model load or conversion to the native format, alone or two at once under a seeded schedule x fault (file operation, '
            'library call, kernel, solver, memory, cancellation, crash); file content checked at every operation, open handles after every step; '
            'non-trivial when a fault struck or the file was updated; distinct by (project, action, fault, schedule)')
    key_rule = 'distinct (project, action, fault or schedule) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        proj = C.gen(prng)
        mode = rng.choice(['run', 'run', 'run', 'run', 'run', 'load', 'convert', 'two'])
        spec = {'project': proj, 'mode': mode, 'faults': [], 'switches': [], 'knobs': F.knobs(rng), 'again': rng.random() < 0.3, 'link': rng.random() < 0.1}
        ref = self.reference(world, proj)
        if mode == 'two':
            from .c03 import switches
            spec['switches'] = switches(rng, 2, 160)
            spec['variant'] = rng.random() < 0.5
            spec['again'] = False
            spec['link'] = False
        if rng.random() < (0.25 if mode == 'two' else 0.9):
            spec['faults'] = [self.fault(rng, ref, mode)]
        if mode == 'run' and proj['settings']['main']['state'].lower() == '__cpacs' and rng.random() < 0.15:
            # somebody else saves the file (content which is not the result of this analysis) while the states are computed
            d = json.loads(json.dumps(proj['cpacs']['ac.xml']))
            d['note'] = 'edited ' + d['note'][:rng.choice([0, 10, 4000])]
            for u, m in sorted(d['maps'].items()):
                if u != C.used_map(d) and rng.random() < 0.5:
                    m['angleOfAttack'] = m['angleOfAttack'] + [P.rnd(rng, 20, 30)]
            spec['edit'] = {'nth': rng.randint(1, max(1, ref['stats']['kernel'])), 'to': d}
            spec['link'] = False
            if rng.random() < 0.6:
                spec['faults'] = []
        return spec

    def fault(self, rng, ref, mode):
        k = rng.random()
        if k < 0.4:
            f = F.op_fault(rng, ref['trace'], exclude=['*log.txt'], only=rng.choice([['*aircraft*'], ['*aircraft*'], None]))
            if f and mode == 'convert':
                f['path'] = 'p/a*'
                f['nth'] = rng.randint(1, 6)
            if f and mode == 'two':
                f['act'] = 'errno' if f['act'] == 'kbd' else f['act']
            return f
        if k < 0.75:
            if rng.random() < 0.6:
                return C.lib_fault(rng, ref['libs'], ['libfail', 'libfail', 'libfail', 'kbd', 'crash'])
            return {'on': 'cpacs', 'nth': rng.randint(1, max(1, ref['stats']['cpacs'])), 'act': rng.choice(['kbd', 'memerr', 'crash'])}
        if k < 0.85:
            return {'on': 'kernel', 'nth': rng.randint(1, max(1, ref['stats']['kernel'])), 'act': rng.choice(['runtime', 'memerr', 'reject', 'kbd'])}
        if k < 0.93:
            return {'on': 'lapack', 'nth': rng.randint(1, max(1, ref['stats']['lapack'])), 'act': rng.choice(['singular', 'reject', 'memerr'])}
        return {'on': 'alloc', 'nth': rng.randint(1, max(1, ref['stats']['alloc'])), 'act': 'memerr'}

    def reference(self, world, proj, name='main'):
        def fn():
            # every per-state result is needed to know what belongs into the file
            p = json.loads(json.dumps(proj))
            env = world.env()
            C.write(p, env.path('p'))
            old = M.real_content(env.path(FILE))
            r = env.node([{'do': 'run', 'settings': f'@/p/settings/{name}.json'}, {'do': 'handles'}])
            if r['status'] != 'done' or not r['steps'][0]['ok']:
                raise Violation('undisturbed-failure', describe(r))
            if r['steps'][1]['value']:
                raise Violation('handle-leak', f'after an undisturbed analysis: {r["steps"][1]["value"]}')
            out = {'trace': r['trace'], 'stats': r['stats'], 'libs': r['libs'], 'data': r['steps'][0]['value'], 'old': old, 'new': M.real_content(env.path(FILE))}
            env.close()
            for s in p['settings'].values():
                s['save_results']['global'] = True
            env = world.env()
            C.write(p, env.path('p'))
            r = env.node([{'do': 'run', 'settings': f'@/p/settings/{name}.json'}])
            if r['status'] != 'done' or not r['steps'][0]['ok']:
                raise Violation('undisturbed-failure', describe(r))
            want = {v: [] for v in C.VECTORS}
            k = 0
            while os.path.exists(env.path('p', '_results', f'{name}_{k:03d}', 'global.json')):
                g = json.loads(M.real_content(env.path('p', '_results', f'{name}_{k:03d}', 'global.json')))
                for v, n in C.VECTORS.items():
                    want[v].append(g['global_coeffs'][n[1:]])
                k += 1
            out['want'], out['n'] = want, k
            env.close()
            d = proj['cpacs']['ac.xml']
            back = proj['settings'][name]['state'].lower() == '__cpacs'
            if back and k != len(d['maps'][C.used_map(d)]['angleOfAttack']):
                raise Violation('wrong-states', f'{k} states analysed, the used map of the CPACS file has {len(d["maps"][C.used_map(d)]["angleOfAttack"])}')
            if back:
                e = C.update_error(out['new'], old, C.used_map(d), want)
                if e:
                    raise Violation('wrong-update', f'undisturbed analysis: {e}')
            elif out['new'] != old:
                raise Violation('wrong-update', 'the CPACS file was changed although the states are not from it')
            return out
        return world.cached(['c13', proj, name], fn)

    def execute(self, world, spec):
        proj = spec['project']
        if spec.get('variant'):
            proj = json.loads(json.dumps(proj))
            proj['settings']['second'] = dict(proj['settings']['main'], vlm_autopanels_c=proj['settings']['main'].get('vlm_autopanels_c', 4) + 1)
        back = proj['settings']['main']['state'].lower() == '__cpacs'
        d = proj['cpacs']['ac.xml']
        uid = C.used_map(d)
        names = ['main', 'second'] if spec.get('variant') else ['main', 'main']
        refs = [self.reference(world, proj, n) for n in (names if spec['mode'] == 'two' else names[:1])]
        old = refs[0]['old']
        env = world.env()
        C.write(proj, env.path('p'))
        if spec['link']:
            os.makedirs(env.path('shared'))
            os.rename(env.path(FILE), env.path('shared', 'plane.xml'))
            os.symlink('../../shared/plane.xml', env.path(FILE))
        if spec['mode'] == 'convert':
            os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
        cache = {}
        edit = spec.get('edit')
        edited = C.to_xml(edit['to']).decode() if edit else None
        olds = [old] + ([edited.encode()] if edit else [])

        def check(rel, data):
            if data in olds:
                return None
            if not back or spec['mode'] in ('load', 'convert'):
                return 'the file of the user was changed'
            h = hash(data)
            if h not in cache:
                es = [C.update_error(data, o, uid, r['want']) for r in refs for o in olds]
                cache[h] = None if not all(es) else es[0]
            return cache[h] and 'neither the previous content nor the complete update: ' + cache[h]
        mon = [M.Watch(env.root, [FILE], check, 'torn-cpacs')]
        run = {'do': 'run', 'settings': '@/p/settings/main.json'}
        steps = {'run': [run, {'do': 'handles'}], 'load': [{'do': 'cload', 'settings': '@/p/settings/main.json', 'kind': 'aircraft'}, {'do': 'handles'}],
                 'convert': [{'do': 'chdir', 'dir': 'p'}, {'do': 'cpacs2json', 'file': '@/' + FILE}, {'do': 'handles'}]}
        if back:
            steps['load'] += [{'do': 'cload', 'settings': '@/p/settings/main.json', 'kind': 'state'}, {'do': 'handles'}]
        if spec['mode'] == 'two':
            nodes = [{'steps': [dict(run, settings=f'@/p/settings/{n}.json'), {'do': 'handles'}], 'faults': spec['faults'] if i == 0 else []}
                     for i, n in enumerate(names)]
            results, _, order = env.processes(nodes, spec['switches'], knobs=spec['knobs'], monitors=mon)
        else:
            faults = spec['faults'] + ([{'on': 'kernel', 'nth': edit['nth'], 'act': 'edit', 'put': {FILE: edited}}] if edit else [])
            results, order = [env.node(steps[spec['mode']], faults=faults, knobs=spec['knobs'], monitors=mon)], []
        fired = []
        for i, r in enumerate(results):
            need_done(r, f'{spec["mode"]} {i}', crash_ok=i == 0)
            check_monitor(r)
            fired += [f for f in r['fired'] if f[0] not in ('clock_jump', 'edit')]
        edit = edit and any(f[0] == 'edit' for r in results for f in r['fired'])
        if edit:
            old, olds = olds[1], olds[1:]      # from now on this is what has to be kept
            cache.clear()
        final = M.real_content(env.path(FILE))
        e = check(FILE, final)
        if e:
            raise Violation('lost-edit' if edit else 'torn-cpacs', f'after the end ({describe(results[0])}){", the file was edited meanwhile" if edit else ""}: {e}')
        for i, r in enumerate(results):
            what = f'{fired[:1]}: ' if fired else ''
            for s in r['steps']:
                if s['do'] == 'handles' and s.get('value'):
                    raise Violation('handle-leak', f'{what}{spec["mode"]} ends with {describe(r)}, but {s["value"]} are still open')
                if s['do'] in ('run', 'cload', 'cpacs2json') and not s['ok'] and (not fired or i > 0):
                    raise Violation('fails-undisturbed', f'{spec["mode"]}: {describe(r)}')
            s = r['steps'][0] if r['steps'] else None
            if s and s['do'] == 'run' and s['ok']:
                x = compare.same_data(s['value'], refs[min(i, len(refs) - 1)]['data'])
                if x:
                    raise Violation('wrong-result', f'{what}{x}')
        done = [bool(r['steps'] and r['steps'][0]['do'] == 'run' and r['steps'][0]['ok']) for r in results]
        if back and any(done) and final == old and spec['mode'] != 'load':
            raise Violation('lost-update', f'{fired[:1]}: the analysis reports success, the CPACS file holds the previous content')
        if back and spec['mode'] == 'run' and results[0]['status'] == 'done' and not done[0] and final != old:
            # after the update only the native map is left to be written
            if not any(fnmatch.fnmatch(f[3], '*aeroperformance*') for f in fired):
                raise Violation('update-after-failure', f'{fired[:1]}: the analysis failed ({describe(results[0])}), the CPACS file was updated')
        if any(f[0] == 'kbd' for f in fired) and any(done) and spec['mode'] == 'run':
            raise Violation('swallowed-cancellation', f'{fired[:1]}: the analysis goes on after the user cancelled it')
        if spec['again'] and spec['mode'] == 'run':
            r = env.node([run, {'do': 'handles'}])
            need_done(r, 'run again', crash_ok=False)
            if not r['steps'][0]['ok']:
                raise Violation('no-recovery', f'{fired[:1]}: running again fails: {describe(r)}')
            if back:
                e = C.update_error(M.real_content(env.path(FILE)), old, uid, refs[0]['want'])
                if e:
                    raise Violation('no-recovery', f'after running again: {e}')
        # (a link that cannot be looked at cannot be seen to be one)
        if spec['link'] and not any(f[2] == 'stat' for f in fired) and not os.path.islink(env.path(FILE)):
            raise Violation('link-replaced', f'{FILE} was a link to a shared file')
        junk = [n for n in os.listdir(env.path('p', 'aircraft')) if n not in ('ac.xml', 'ac.json')]
        if junk and all(r['status'] == 'done' for r in results) and not any(f[1] == 'op' and f[2] == 'unlink' for f in fired) and \
                not any(f.get('count', 1) > 1 for f in spec['faults']):
            raise Violation('litter', f'{fired[:1]}: {junk} left behind')
        return {'key': digest([proj, spec['mode'], spec['link'], spec.get('edit') if edit else None, fired, order]), 'nontrivial': bool(fired) or back,
                'classes': ['edited meanwhile'] * bool(edit) + [spec['mode'] + (' write-back' if back else '')] + [f[0].split(':')[0] + '@' + f[1] + ('/' + f[2] if f[1] == 'cpacs' else '') for f in fired[:1]]}


PROP = C13()
