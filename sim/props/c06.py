"""C06: re-running after an interruption gives the undisturbed outcome."""
from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, describe, digest, files, need_done
from .c04 import interruption


class C06(Prop):
    id = 'C06'
    quick, thorough = 1300, 32000
    list_paths = [['events']]
    rule = ('case = random project x 1-4 interrupted analyses or cleans (crash, torn write, error, cancellation, full disk, memory failure '
            'at any file operation or source line, also while re-running or cleaning the debris of the previous one) followed by an '
            'undisturbed analysis, with or without cleaning; oracle: outputs of an analysis never disturbed; non-trivial when an '
            'interruption hit; distinct by (project, interruptions)')
    key_rule = 'distinct (project, interruption sequence) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.12 else 'off'
        proj = P.any_project(prng, plots=plots, small=True if plots == 'some' else None)
        ev = []
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            what = rng.choice(['run', 'run', 'run', 'run_clean', 'clean']) if i or rng.random() < 0.7 else 'run'
            if what == 'run' or rng.random() < 0.4:
                f = interruption(rng, world, proj)
            else:
                f = [{'on': 'op', 'kinds': [rng.choice(['unlink', 'rmdir', 'listdir', 'stat', 'mkdir'])], 'path': 'p/_*', 'nth': rng.randint(1, 9),
                      'act': rng.choice(['crash', 'crash_after', 'kbd', 'errno']), 'errno': 13, 'count': rng.choice([1, 1, 1000])}]
            ev.append({'what': what, 'faults': f})
        return {'project': proj, 'events': ev, 'final': rng.choice(['run', 'run', 'run_clean']), 'cli': rng.random() < 0.3,
                'knobs': F.knobs(rng)}

    def execute(self, world, spec):
        proj = spec['project']
        ref = world.reference(proj)
        env = world.env()
        P.write_project(proj, env.path('p'))
        st = '@/p/settings/main.json'
        hits = []
        for i, e in enumerate(spec['events']):
            steps = {'run': [{'do': 'run', 'settings': st, 'data': False}], 'clean': [{'do': 'cli', 'argv': ['--run', st, '--clean-only']}],
                     'run_clean': [{'do': 'cli', 'argv': ['--run', st, '--clean']}]}[e['what']]
            r = env.node(steps, faults=e['faults'], knobs=dict(spec['knobs'], clock=1.5e9 + 1e6 * i))
            need_done(r, f'{e["what"]} {i}')
            hits += [[e['what'], f[0], f[2], f[3]] for f in r['fired'] if f[0] != 'clock_jump']
        mid = env.snap('p')
        kn = dict(spec['knobs'], clock=1.7e9)
        kn.pop('jumps', None)
        argv = ['--run', st] + (['--clean'] if spec['final'] == 'run_clean' else [])
        clean = spec['final'] == 'run_clean'
        step = {'do': 'cli', 'argv': argv} if spec['cli'] or clean else {'do': 'run', 'settings': st}
        r = env.node([step], knobs=kn)
        need_done(r, 'the analysis after the interruption', crash_ok=False)
        s = r['steps'][0]
        if not s['ok']:
            raise Violation('no-recovery', f'after {hits} the undisturbed analysis fails: {describe(r)}')
        after = env.snap('p')
        conv = C.owned(proj)
        d = C.changed(ref['after'], after, proj)
        if d:
            raise Violation('no-recovery', f'after {hits} and an undisturbed {spec["final"]}: {d}')
        for rel, v in ref['after'].items():
            if conv(rel) and not rel.startswith('aircraft/') and after.get(rel) != v:
                raise Violation('no-recovery', f'after {hits} and an undisturbed {spec["final"]}: {rel} differs')
        for rel, v in mid.items():
            if conv(rel):
                continue
            if not rel.startswith(('_results', '_plots')) and rel != 'log.txt' and after.get(rel) != v:
                raise Violation('no-recovery', f'input {rel} changed')
        res, plots = compare.sub(after, '_results'), compare.sub(after, '_plots')
        if clean:
            d = compare.diff_outputs(res, ref['results']) or compare.diff_outputs(compare.norm_plots(plots), compare.norm_plots(ref['plots']))
        else:
            d = compare.diff_outputs({k: res[k] for k in res if k in ref['results']}, ref['results'])
            if not d:
                old = compare.sub(mid, '_plots')
                new = {k: v for k, v in plots.items() if v[0] == 'd' and k in ref['plots'] or v[0] != 'd' and old.get(k) != v}
                d = compare.diff_outputs(compare.norm_plots(new), compare.norm_plots(ref['plots']))
        if d:
            raise Violation('no-recovery', f'after {hits} and an undisturbed {spec["final"]}: {d}')
        if s['value'] is not None:
            d = compare.same_data(s['value'], ref['data'])
            if d:
                raise Violation('no-recovery', f'after {hits}: {d}')
        return {'key': digest([proj, hits, spec['final']]), 'nontrivial': bool(hits), 'classes': [spec['final']] + sorted({h[0] + ' ' + h[1].split(':')[0] for h in hits})}


PROP = C06()
