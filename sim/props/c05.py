"""C05: success means every requested output is there; no failure is swallowed."""
import errno
import json
import os

from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, check_complete, check_shown, describe, digest, files, need_done


UNUSABLE = ['missing', 'empty', 'blank', 'cut', 'bytes', 'dir']


class C05(Prop):
    id = 'C05'
    quick, thorough = 3200, 60000
    rule = ('case = random project and output selection (plots in some) x 1-2 faults: error or torn write at any file operation, full or '
            'recovering disk, failing directory creation, read error, memory failure at an allocation or source line, kernel, solver or '
            'plot failure, cancellation, or an input file missing, empty, cut off or garbage; oracle: success only with all requested outputs equal to the undisturbed run; non-trivial when a '
            'fault fired; distinct by (project, faults)')
    key_rule = 'distinct (project, fired fault placement) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.25 else 'off'
        proj = P.any_project(prng, plots=plots, small=True if plots == 'some' else None, states=prng.choice([1, 1, 2]) if plots == 'some' else None)
        ref = world.reference(proj)
        faults = []
        if rng.random() < 0.06:
            from .c04 import inputs
            return {'project': proj, 'faults': [], 'broken': [rng.choice(inputs(proj)), rng.choice(UNUSABLE)], 'cli': rng.choice([None, None, []]), 'knobs': F.knobs(rng)}
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(['op'] * 6 + ['full', 'line', 'alloc', 'kernel', 'lapack'] + (['cpacs'] * 3 if proj.get('cpacs') else []) + ['render'] * (3 if plots == 'some' else 0))
            f = None
            if k == 'op':
                f = F.op_fault(rng, ref['trace'], acts=('errno', 'errno', 'errno', 'torn_err', 'kbd'), exclude=['*log.txt'] if rng.random() < 0.92 else [],
                               weights={'out': 5, 'mkdir': 1, 'in': 4, 'del': 1})
                if f and f['kinds'] == ['open_r'] and f['act'] == 'errno' and f['path'].split('/')[1] in ('aircraft', 'airfoils', 'state', 'deformation', 'settings') and rng.random() < 0.4:
                    f['errno'] = errno.ENOENT       # an input has just disappeared
                if plots == 'some' and f and '_plots' in f['path'] and rng.random() < 0.5:
                    f['path'] = 'p/_plots/main_*/*'
            elif k == 'full':
                f = F.disk_full(rng, ref['trace'], exclude=['*log.txt'] if rng.random() < 0.7 else [])
                if f and rng.random() < 0.3:
                    f['count'] = rng.choice([1, 3])      # somebody freed space
            elif k == 'line':
                f = F.line_fault(rng, world.reference(proj, lines=True)['cover'], ['kbd', 'memerr'])
            elif k == 'lapack':
                f = {'on': 'lapack', 'nth': rng.randint(1, P.count(proj)), 'act': rng.choice(['singular', 'memerr', 'reject'])}
            elif k == 'cpacs':
                f = C.lib_fault(rng, ref['libs'])
                if rng.random() < 0.3:
                    f = {'on': 'cpacs', 'nth': rng.randint(1, max(1, ref['stats']['cpacs'])), 'act': rng.choice(['kbd', 'memerr'])}
            elif k == 'render':
                f = {'on': 'render', 'nth': rng.randint(1, max(1, ref['stats']['render'])), 'act': rng.choice(['runtime', 'memerr', 'kbd'])}
            else:
                n = max(1, ref['stats'][k])
                f = {'on': k, 'nth': min(n, rng.choice([rng.randint(1, n), rng.randint(1, 10)])), 'act': {'alloc': 'memerr', 'kernel': rng.choice(['runtime', 'memerr', 'reject'])}[k]}
            if f:
                faults.append(f)
        if rng.random() < 0.12:
            faults.append(dict(F.short_io(rng), count=rng.choice([1, 4, 100000])))      # not a failure
        return {'project': proj, 'faults': faults, 'cli': rng.choice([None, None, None, [], ['--quiet'], ['-v'], ['--clean']]), 'knobs': F.knobs(rng)}

    def execute(self, world, spec):
        proj = spec['project']
        ref = world.reference(proj)
        check_complete(proj, 'main', ref['results'], ref['plots'], what='without any fault: ')
        env = world.env()
        P.write_project(proj, env.path('p'))
        broken = spec.get('broken')
        if broken:
            from .c04 import break_input
            f = env.path(*broken[0].split('/'))
            d, n = broken[0].split('/')[1:3]
            # (an empty deformation file means that nothing is deformed)
            unused = d == 'deformation' and (proj['settings']['main'].get('deformation') != n or broken[1] != 'missing' and not (
                broken[1] in ('cut', 'bytes') and os.path.getsize(f) > 30)) or \
                d == 'airfoils' and (broken[1] == 'cut' or json.dumps('airfoils/' + n) not in json.dumps(proj['aircraft']))
            if unused or not break_input(f, broken[1]):
                broken = None
        st = '@/p/settings/main.json'
        step = {'do': 'run', 'settings': st} if spec['cli'] is None else {'do': 'cli', 'argv': ['--run', st] + spec['cli']}
        r = env.node([step], faults=spec['faults'], knobs=spec['knobs'])
        need_done(r, 'analysis', crash_ok=False)
        s = r['steps'][0]
        fired = [f for f in r['fired'] if f[0] not in ('clock_jump', 'short')]
        if broken:
            if s['ok']:
                raise Violation('swallowed-failure', f'although the input {spec["broken"][0]} is unusable ({spec["broken"][1]}), the analysis reports success')
        elif s['ok']:
            after = env.snap('p')
            res, plots = compare.sub(after, '_results'), compare.sub(after, '_plots')
            why = f'although {fired[0][0]} on {fired[0][2]} {fired[0][3]} was injected, ' if fired else ''
            check_complete(proj, 'main', res, plots, cls='swallowed-failure', what=why)
            d = compare.diff_outputs(res, ref['results']) or compare.diff_outputs(compare.norm_plots(plots), compare.norm_plots(ref['plots']))
            if d:
                raise Violation('swallowed-failure', f'{why}the analysis reports success: {d}')
            d = C.changed(ref['after'], after, proj)
            if d:
                raise Violation('swallowed-failure', f'{why}the analysis reports success: {d}')
            if s['value'] is not None:
                check_shown(proj, 'main', s['value'].get('shown', []), cls='swallowed-failure', what=why)
                d = compare.same_data(s['value'], ref['data'])
                if d:
                    raise Violation('swallowed-failure', f'{why}the analysis reports success: {d}')
        elif not fired:
            raise Violation('fails-undisturbed', describe(r))
        return {'key': digest([proj, fired, spec.get('broken')]), 'nontrivial': bool(fired or broken),
                'classes': [spec['broken'][1] + ' input'] if broken else [('survived' if s['ok'] else 'reported') + ' ' + f[0].split(':')[0] + '@' + f[1] for f in fired[:2]]}


PROP = C05()
