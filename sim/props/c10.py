"""C10: repeated analyses do not accumulate resources."""
from .. import faults as F, project as P
from ..base import Prop, Violation, digest, need_done

ALLOWED_LIVE = {}          # nothing of the package may survive


class C10(Prop):
    id = 'C10'
    quick, thorough = 500, 16000
    per_project = 5
    list_paths = [['ops']]
    project_paths = [['project']]
    rule = ('case = random project x 1-8 operations of one process (analysis by API or command line, model/state/settings load and save, '
            'panelling a loaded model, clean, CPACS round, analysis with a bad input file) each undisturbed or with a failed file, directory, allocation, kernel, solver or '
            'plotting operation, returned objects dropped; oracle: afterwards no open file, no open figure, no live object of the package '
            '(weak references to every array of the analyses, scan of all live objects); or the same operations repeated: memory allocated '
            'below the package does not grow per repetition; non-trivial when an operation ran; distinct by (project, operations, faults)')
    key_rule = 'distinct (project, operation sequence, fault placement) cases'

    def fault(self, rng, world, proj, plots):
        k = rng.choice(['op', 'op', 'line', 'line', 'full', 'kernel', 'alloc', 'lapack', 'render' if plots else 'op', 'render' if plots else 'kernel'])
        if k == 'op':
            return F.op_fault(rng, world.reference(proj)['trace'], acts=('errno', 'torn_err'))
        if k == 'line':
            return F.line_fault(rng, world.reference(proj, lines=True)['cover'], ['memerr', 'memerr', 'kbd'])
        if k == 'full':
            return F.disk_full(rng, world.reference(proj)['trace'])
        f = {'kernel': {'on': 'kernel', 'act': rng.choice(['runtime', 'memerr', 'reject'])}, 'alloc': {'on': 'alloc', 'act': 'memerr'},
             'lapack': {'on': 'lapack', 'act': rng.choice(['singular', 'memerr', 'reject'])}, 'render': {'on': 'render', 'act': rng.choice(['runtime', 'memerr'])}}[k]
        return dict(f, nth=rng.randint(1, 60 if k == 'alloc' and rng.random() < 0.5 else 8))

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = prng.random() < 0.3
        proj = P.any_project(prng, plots='some' if plots else 'off', small=True if plots else None)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            o = {'what': rng.choice(['run', 'run', 'run', 'run', 'cli', 'load', 'save', 'use', 'clean', 'runclean', 'bad']), 'faults': []}
            if rng.random() < 0.4:
                o['verb'] = rng.choice(['quiet', 'verbose', 'debug'])
            if rng.random() < 0.6:
                f = self.fault(rng, world, proj, plots)
                o['faults'] = [f] if f else []
            if o['what'] == 'bad':
                from .c04 import BREAKS, inputs
                o['spoil'] = [rng.choice(inputs(proj)), rng.choice(BREAKS)]
            ops.append(o)
        spec = {'project': proj, 'ops': ops, 'memory': rng.random() < 0.2 and not plots, 'knobs': {}}
        if spec['memory']:
            spec['ops'] = ops[:3]
        return spec

    def steps(self, o, proj):
        cp = proj.get('cpacs') and (['aircraft', 'state'] if proj['settings']['main']['state'].lower() == '__cpacs' else ['aircraft'])
        st = '@/p/settings/main.json'
        out = [{'do': 'faults', 'faults': o['faults']}]
        load = [{'do': 'cload' if cp and k in cp else 'load', 'kind': k, 'settings': st} for k in ('settings', 'state', 'aircraft')]
        if o['what'] == 'bad':
            out = [{'do': 'spoil', 'file': o['spoil'][0], 'how': o['spoil'][1]}] + out
        out += {'bad': [{'do': 'run', 'settings': st, 'data': False, 'track': True}, {'do': 'put', 'dir': 'p', 'project': proj}], 'run': [{'do': 'run', 'settings': st, 'data': False, 'track': True}], 'cli': [{'do': 'cli', 'argv': ['--run', st]}],
                'load': load, 'use': load + [{'do': 'use'}], 'save': load + [{'do': 'save', 'obj': k, 'kind': k, 'with': 'settings', 'settings': st} for k in ('settings', 'state', 'aircraft')],
                'clean': [{'do': 'clean', 'settings': st}], 'runclean': [{'do': 'cli', 'argv': ['--run', st, '--clean']}]}[o['what']]
        out = [dict(s, verb=o.get('verb')) if s['do'] in ('run', 'cli') else s for s in out]
        return out + [{'do': 'faults', 'faults': []}]

    def execute(self, world, spec):
        env = world.env()
        P.write_project(spec['project'], env.path('p'))
        # what the first use of the libraries leaves behind is not at issue
        warm = [{'do': 'run', 'settings': '@/p/settings/main.json', 'data': False}, {'do': 'drop'}]
        body = [s for o in spec['ops'] for s in self.steps(o, spec['project'])]
        if spec['memory']:
            rep = {'do': 'repeat', 'steps': [dict(s, track=False) for s in body], 'times': 3, 'rounds': 6}
            r = env.node(warm + [rep, {'do': 'drop'}], knobs=spec['knobs'])
            need_done(r, 'operations', crash_ok=False)
            use = next(s['value']['use'] for s in r['steps'] if s['do'] == 'repeat')
            def growth(use, skip):          # each measurement itself is 3 objects
                for i, unit, slack in ((0, 'objects', 0.9), (1, 'bytes', 24)):
                    d = [(b[i] - a[i] - (0 if i else 3)) / 3 for a, b in zip(use[skip:], use[skip + 1:])]
                    if min(d) >= slack:
                        yield d, unit
            import os
            if os.environ.get('SIM_MEM'):
                print([(b[0] - a[0], b[1] - a[1]) for a, b in zip(use, use[1:])], file=open('/tmp/mem.txt', 'a'))
            if list(growth(use, 1)):
                # a longer history decides
                r = env.node(warm + [dict(rep, rounds=14), {'do': 'drop'}], knobs=spec['knobs'])
                need_done(r, 'operations', crash_ok=False)
                use = next(s['value']['use'] for s in r['steps'] if s['do'] == 'repeat')
                for d, unit in growth(use, 4):
                    raise Violation('memory-growth', f'{min(d):.0f} {unit} more after every repetition of {[o["what"] for o in spec["ops"]]} ({use})')
        else:
            r = env.node(warm + body + [{'do': 'drop'}], knobs=spec['knobs'], lines=any(f['on'] == 'line' for o in spec['ops'] for f in o['faults']))
            need_done(r, 'operations', crash_ok=False)
        drops = [s for s in r['steps'] if s['do'] == 'drop']
        if any('value' not in s for s in drops):
            from .. import seams
            raise seams.HarnessError(str(drops))
        first, end = drops[0]['value'], drops[-1]['value']
        what = ', '.join(f'{s["do"]}{"" if s["ok"] else " (" + str(s.get("exc")) + ")"}' for s in r['steps'] if s['do'] not in ('faults', 'drop', 'repeat'))[:300]
        for v in (first, end):
            if v['fds']:
                raise Violation('open-file', f'{v["fds"][0]} is still open after {what}')
            if v['logs'] > 1:
                raise Violation('open-file', f'the log is open {v["logs"]} times after {what}')
            if v['figures'] and not any(f[1] == 'line' for f in r['fired']):      # (between opening a figure and being ready to close it nothing helps)
                raise Violation('open-figure', f'{v["figures"]} figures are still open after {what}')
            if v['alive']:
                raise Violation('kept-alive', f'{v["alive"]} still alive after {what}')
            if v['live']:
                raise Violation('kept-alive', f'live objects {v["live"]} after {what}')
        fired = [f[:4] for f in r['fired'] if f[0] != 'clock_jump']
        return {'key': digest([spec['project'], [o['what'] for o in spec['ops']], fired, spec['memory']]), 'nontrivial': True,
                'classes': ['memory' if spec['memory'] else 'objects'] + sorted({f[0].split(':')[0] + '@' + f[1] for f in fired})}


PROP = C10()
