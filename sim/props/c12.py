"""C12: a result file that exists is complete and agrees with the others."""
import os

from .. import compare, faults as F, monitors as M, project as P
from ..base import Prop, SAVE_FILE, Violation, agreement, check_monitor, describe, digest, expected_results, need_done
from .c04 import interruption


class C12(Prop):
    id = 'C12'
    quick, thorough = 1200, 26000
    list_paths = [['runs'], ['switches']]
    project_paths = [['project']]
    rule = ('case = random project, with or without results of an earlier version of its states x 1-3 consecutive analyses, each with a fault '
            '(torn write, error, full disk, cancellation, memory failure, crash at any file operation or source line; kernel, solver, plot '
            'failure) or a process reading the results at the same time; oracle at every file operation: each result file is absent, the '
            'full previous or the full new one, and the map is new only if all states are; at the end of a success: files, map and returned '
            'data agree (own re-computation); non-trivial when a result file was written; distinct by (project, faults, schedule)')
    key_rule = 'distinct (project, previous results, fault placement, reader schedule) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.04 else 'off'
        save = {k: True for k in P.SAVE_KEYS} if prng.random() < 0.6 else None
        proj = P.any_project(prng, plots=plots, small=True if plots == 'some' else None, save=save)
        spec = {'project': proj, 'stale': None, 'runs': [], 'switches': [], 'reader': rng.random() < 0.15, 'knobs': F.knobs(rng)}
        if rng.random() < 0.5 and not proj.get('cpacs'):
            n = P.count(proj)
            spec['stale'] = P.gen_states(rng, rng.choice([n, n, max(1, n - 1), n + 1]))
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = interruption(rng, world, proj)
            if rng.random() < 0.5:
                k = rng.choice(['write', 'write', 'close', 'rename', 'open_w', 'open_x', 'open_rw'])
                acts = ['errno', 'torn_err', 'crash', 'crash_after', 'torn_crash', 'kbd'] if k == 'write' else ['errno', 'crash', 'kbd', 'crash_after']
                f = [{'on': 'op', 'kinds': [k], 'path': 'p/_results/*', 'nth': rng.randint(1, 9), 'act': rng.choice(acts), 'errno': rng.choice([28, 5]),
                      'frac': rng.choice([0.0, 0.2, 0.6, 0.95])}]
            if rng.random() < 0.12:
                f = f + [dict(F.short_io(rng), count=rng.choice([1, 4, 100000]))]
            spec['runs'].append({'faults': f, 'cli': rng.random() < 0.2})
        if spec['reader']:
            from .c03 import switches
            spec['runs'] = spec['runs'][:1]
            spec['switches'] = switches(rng, 2, 150)
        return spec

    def execute(self, world, spec):
        proj = spec['project']
        ref = world.reference(proj)
        new = {k: v[1] for k, v in ref['results'].items() if v[0] == 'f'}
        env = world.env()
        P.write_project(proj, env.path('p'))
        old = {}
        if spec['stale']:
            sp = dict(proj, state={'st.json': spec['stale']})
            old = {k: v[1] for k, v in world.reference(sp)['results'].items() if v[0] == 'f'}
            for rel, v in old.items():
                os.makedirs(os.path.dirname(env.path('p/_results', rel)), exist_ok=True)
                with open(env.path('p/_results', rel), 'wb') as fp:
                    fp.write(v)
        names = sorted(set(new) | set(old))
        apm = 'main_aeroperformance.json'
        isnew = {}

        def state(rel, data):
            """'absent', 'old', 'new' or None (neither)."""
            if data is None:
                return 'absent'
            if data == old.get(rel):
                return 'old'
            if rel in new and compare.same_file(rel, data, new[rel]) is None:
                return 'new'
            return None

        def check(path, data):
            rel = path[len('p/_results/'):]
            s = state(rel, data)
            isnew[rel] = s
            if s is None:
                return f'{len(data)} bytes, neither the complete previous nor the complete new content'
            if s == 'absent' and rel in old:
                return None
            if rel == apm and s == 'new':
                for other in new:
                    if other == apm:
                        continue
                    t = isnew.get(other)
                    if t != 'new' and state(other, M.real_content(env.path('p/_results', other))) != 'new':
                        return f'the aeroperformance map is there before {other}'
            return None
        paths = ['p/_results/' + n for n in names]
        st = '@/p/settings/main.json'
        wrote = False
        hits = []
        for i, run in enumerate(spec['runs']):
            step = {'do': 'cli', 'argv': ['--run', st]} if run['cli'] else {'do': 'run', 'settings': st}
            mon = [M.Watch(env.root, paths, check, 'torn-result')]
            if spec['reader']:
                read = {'do': 'readall', 'files': paths}
                res, _, _ = env.processes([{'steps': [step], 'faults': run['faults']}, {'steps': [read] * 5}], spec['switches'], knobs=spec['knobs'], monitors=mon)
                r = res[0]
                need_done(res[1], 'reader', crash_ok=False)
                for s in res[1]['steps']:
                    for path, data in (s['value'] or {}).items():
                        if state(path[len('p/_results/'):], data) is None:
                            raise Violation('torn-result', f'{path}: a concurrent reader sees {len(data)} bytes, neither the previous nor the new content')
            else:
                r = env.node([step], faults=run['faults'], knobs=spec['knobs'], monitors=mon)
            need_done(r, f'analysis {i}')
            check_monitor(r)
            hits += [f[:4] for f in r['fired'] if f[0] not in ('clock_jump', 'short')]
            tree = compare.sub(env.snap('p'), '_results')
            for rel in names:
                d = check('p/_results/' + rel, tree[rel][1] if rel in tree and tree[rel][0] == 'f' else None)
                if d:
                    raise Violation('torn-result', f'{rel} after the end ({describe(r)}): {d}')
                wrote = wrote or isnew.get(rel) == 'new'
            if r['status'] == 'done' and r['steps'][0]['ok']:
                mine = {k: v for k, v in tree.items() if k in new}
                for rel in sorted(expected_results(proj)):
                    if isnew.get(rel) != 'new':
                        raise Violation('incomplete', f'{rel} is {isnew.get(rel)} after a successful analysis')
                d = agreement(proj, 'main', mine, r['steps'][0]['value'])
                if d:
                    raise Violation('disagreement', d)
        return {'key': digest([proj, spec['stale'], hits, spec['switches']]), 'nontrivial': wrote,
                'classes': ['reader' if spec['reader'] else 'alone'] + [h[0].split(':')[0] + '@' + h[1] for h in hits[:1]]}


PROP = C12()
