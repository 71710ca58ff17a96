"""C21: whatever happens in a call, the caller's process is afterwards as it was."""
from .. import faults as F, seams
from ..base import Prop, Violation, describe, digest, need_done
from .c04 import BREAKS, inputs
from .c20 import C20


class C21(C20):
    id = 'C21'
    quick, thorough = 1600, 40000
    list_paths = [['faults']]
    rule = ('case = 1-3 calls (analysis, cleaning, template, conversion, loading, saving) on a random native or CPACS project (plots in some), each '
            'undisturbed, with a bad input file, or ended by a failure or cancellation at any file operation, kernel, solver, plot, library call, '
            'allocation or source line; oracle: current directory, environment, umask, signal handlers, standard streams, hooks, search path, arguments, '
            'random generators, floating-point error handling, print options, decimal context, locale, warning filters, collector, threads, exit '
            'handlers and plot settings are those from before; distinct by (calls, project, faults); every case is non-trivial')
    key_rule = 'distinct (calls, project, place of the failure) cases'

    def generate(self, world, vseed, seed, tier):
        spec = C20.generate(self, world, vseed, seed, tier)
        rng = __import__('random').Random(f'{vseed}/c21x/{seed}')
        spec['cli'] = False
        if spec['job'] == 'cleanrun':
            spec['job'] = 'clean'
        k = rng.choice(['none', 'none', 'cancel', 'cancel', 'op', 'op', 'op', 'env', 'env', 'bad', 'bad', 'line', 'line'])
        if k != 'cancel':
            spec['faults'] = []
        ref = self.reference(world, spec)
        st = ref['stats']
        if k == 'op':
            f = F.op_fault(rng, ref['trace'], acts=('errno', 'errno', 'torn_err'))
            spec['faults'] = [f] if f else []
        elif k == 'env':
            on = [x for x in ('kernel', 'lapack', 'render', 'cpacs', 'alloc') if st.get(x)]
            if on:
                on = rng.choice(on)
                act = {'kernel': ['runtime', 'memerr', 'reject'], 'lapack': ['singular', 'memerr', 'reject'], 'render': ['runtime', 'memerr'], 'cpacs': ['libfail', 'memerr'],
                       'alloc': ['memerr']}[on]
                spec['faults'] = [{'on': on, 'nth': rng.randint(1, st[on]), 'act': rng.choice(act)}]
        elif k == 'bad':
            spec['broken'] = [rng.choice(inputs(spec['project'])), rng.choice(BREAKS)]
        elif k == 'line':
            spec['faults'] = [F.line_fault(rng, self.reference(world, spec, True)['cover'], ['memerr'])]
        spec['elsewhere'] = rng.random() < 0.6
        spec['before'] = rng.choice([None, None, 'caller', 'caller', 'run'])
        return spec

    def execute(self, world, spec):
        env, cwd = self.setup(world, spec)
        pre, job = self.steps(spec)
        if spec.get('elsewhere') and cwd == 'p' and spec['job'] != 'convert':
            cwd = 'w'
        steps = [{'do': 'process', 'own': spec['before'] == 'caller'}]
        if spec['before'] == 'run':
            steps = [{'do': 'run', 'settings': '@/p/settings/main.json', 'data': False}] + steps
        if spec.get('broken'):
            pre = [{'do': 'spoil', 'file': spec['broken'][0], 'how': spec['broken'][1]}] + pre
        fl = spec['faults']
        steps += pre + ([{'do': 'faults', 'faults': fl}] if fl else []) + [job] + ([{'do': 'faults', 'faults': []}] if fl else []) + [{'do': 'process'}]
        r = env.node(steps, knobs=spec['knobs'], cwd=cwd, lines=any(f['on'] == 'line' for f in fl))
        need_done(r, spec['job'], crash_ok=False)
        fired = [f for f in r['fired'] if f[0] != 'clock_jump']
        pr = [s for s in r['steps'] if s['do'] == 'process']
        if not all(s['ok'] for s in pr):
            raise seams.HarnessError(str(pr)[:500])
        a, b = [s['value'] for s in pr]
        how = describe(r)
        for k in a:
            if a[k] != b[k]:
                x, y = a[k], b[k]
                if isinstance(x, dict) and isinstance(y, dict):
                    x, y = [{q: d.get(q) for q in sorted(set(x) | set(y), key=str) if x.get(q) != y.get(q)} for d in (x, y)]
                elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                    x, y = [[(i, d[i]) for i in range(len(d)) if a[k][i] != b[k][i]] for d in (x, y)]
                raise Violation('process-changed', f'{k}: {str(y)[:120]} instead of {str(x)[:120]} after {spec["job"]} ({how}; {[f[:4] for f in fired]}; input: {spec.get("broken")})')
        if not fired and not spec.get('broken') and not all(s['ok'] for s in r['steps']):
            raise Violation('fails-undisturbed', f'{spec["job"]}: {how}')
        return {'key': digest([spec['job'], spec['project'], spec.get('kind'), spec['before'], spec.get('broken'), [f[:4] for f in fired]]), 'nontrivial': True,
                'classes': [spec['job']] + ([spec['broken'][1] + ' input'] if spec.get('broken') else []) + [f'{f[0].split(":")[0]}@{f[1]}' for f in fired[:2]]}


PROP = C21()
