"""C20: a cancellation (Ctrl-C) reaches the caller at once, whatever pytornado is doing."""
import json
import os

from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, describe, digest, need_done

SETT = '@/p/settings/main.json'
FILE = {'aircraft': 'aircraft/ac.json', 'state': 'state/st.json', 'settings': 'settings/main.json'}
MAX_AFTER = {'ops': 80, 'lines': 1500}      # tidying up: removing temporary files, closing figures and handles


def hidden(rel):
    return os.path.basename(rel).startswith('.') or os.path.basename(rel) == 'log.txt'


def only_files(tree):
    return {k: v for k, v in tree.items() if v[0] != 'd' and not hidden(k)}


class C20(Prop):
    id = 'C20'
    quick, thorough = 2200, 48000
    list_paths = [['faults']]
    rule = ('case = analysis, cleaning, template, conversion, loading or saving, by function or command line, on a random native or CPACS project '
            '(plots in some) x Ctrl-C at any file operation, kernel, solver, plot, library call, allocation or source line, also twice or while a '
            'failure is being tidied up; oracle: KeyboardInterrupt at the caller (command: nonzero status), no kernel, solver, plot or library '
            'work and no new or changed output afterwards, bounded tidying, nothing left behind; non-trivial when it struck; distinct by '
            '(job, project, faults)')
    key_rule = 'distinct (job, project, place of the cancellation) cases'
    real = Prop.real + ['commonlibs']
    stubbed = Prop.stubbed + ['TiXI and TiGL (external libraries, absent here): stand-ins with real XML documents on the simulated disk']

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.3 else 'off'
        proj = P.any_project(prng, 0.3, plots=plots, small=True if plots == 'some' else None, states=prng.choice([1, 2, 2, 3]))
        cp = bool(proj.get('cpacs'))
        job = rng.choice(['run'] * 6 + ['clean', 'clean', 'cleanrun', 'template', 'load', 'save', 'save'] + (['convert'] * 3 + ['cload'] if cp else []))
        spec = {'project': proj, 'job': job, 'cli': rng.random() < 0.4, 'knobs': F.knobs(rng), 'faults': [], 'old': rng.random() < 0.5,
                'kind': rng.choice(['aircraft', 'state', 'settings'])}
        if cp:
            if spec['kind'] == 'aircraft' or spec['kind'] == 'state' and proj['settings']['main']['state'].lower() == '__cpacs':
                spec['kind'] = 'settings'
        if job == 'template':
            from .c08 import variants
            spec['variant'] = rng.choice([None] + variants())
        if job == 'cleanrun':
            spec['cli'] = True
        ref = self.reference(world, spec)
        st = ref['stats']
        k = rng.choice(['op'] * 4 + ['line'] * 5 + [x for x in ('kernel', 'lapack', 'render', 'cpacs', 'alloc') if st.get(x)] * 2)
        if k == 'op':
            f = self.at_op(rng, ref['trace'])
        elif k == 'line':
            f = F.line_fault(rng, self.reference(world, spec, True)['cover'], ['kbd'])
        else:
            f = {'on': k, 'nth': rng.randint(1, st[k]), 'act': 'kbd'}
        if f is None:
            f = {'on': 'line', 'nth': 1, 'act': 'kbd'}
        spec['faults'] = [f]
        r = rng.random()
        if r < 0.1:
            # the user presses Ctrl-C again while it tidies up
            spec['faults'].append({'on': 'op', 'kinds': rng.choice([['unlink'], ['close'], ['unlink', 'close', 'stat', 'rmdir']]), 'nth': rng.randint(1, 3),
                                   'path': '*.tmp', 'act': 'kbd'})
        elif r < 0.22:
            # ... or while a failure is being dealt with
            o = F.op_fault(rng, ref['trace'], acts=('errno', 'torn_err'), exclude=['*log.txt'])
            if o:
                o.pop('count', None)
                spec['faults'] = [o, dict(rng.choice([{'on': 'op', 'kinds': ['unlink', 'rmdir', 'listdir']}, {'on': 'op', 'kinds': ['unlink']}]), nth=1, act='kbd')]
        return spec

    def at_op(self, rng, trace):
        ops = F.classify(trace)
        # closing a file opened for reading may be left to the interpreter, which drops exceptions there
        ops = [o for o in ops if not (o[1] == 'close' and o[0] != 'out')]
        if not ops:
            return None
        c = rng.choice(sorted({o[0] for o in ops}))
        kd = rng.choice(sorted({o[1] for o in ops if o[0] == c}))
        o = rng.choice([o for o in ops if o[0] == c and o[1] == kd])
        return {'on': 'op', 'kinds': [o[1]], 'path': F.glob_escape(o[2]), 'nth': o[3], 'act': 'kbd'}

    # -- what is being cancelled: steps before it, and the step itself
    def steps(self, spec):
        job, cli = spec['job'], spec['cli']
        if job == 'run':
            return [], {'do': 'cli', 'argv': ['--run', SETT]} if cli else {'do': 'run', 'settings': SETT, 'data': False}
        if job == 'cleanrun':
            return [], {'do': 'cli', 'argv': ['--run', SETT, '--clean']}
        if job == 'clean':
            return [], {'do': 'cli', 'argv': ['--run', SETT, '--clean-only']} if cli else {'do': 'clean', 'settings': SETT}
        if job == 'template':
            v = spec['variant']
            return [], {'do': 'cli', 'argv': ['--make-example'] if v is None else ['--make-example-from-db', v]} if cli else {'do': 'template', 'db': v}
        if job == 'convert':
            return [], {'do': 'cli', 'argv': ['--cpacs2json', 'aircraft/ac.xml']} if cli else {'do': 'cpacs2json', 'file': '@/p/aircraft/ac.xml'}
        if job == 'cload':
            return [], {'do': 'cload', 'settings': SETT, 'kind': 'state' if cli and spec['project']['settings']['main']['state'].lower() == '__cpacs' else 'aircraft'}
        kind = spec['kind']
        load = {'do': 'load', 'kind': kind, 'settings': SETT}
        if job == 'load':
            return [], load
        ed = {'aircraft': {'area': 7.5, 'uid': 'renamed' * 300}, 'state': {}, 'settings': {'vlm_autopanels_c': 7}}[kind]
        return [{'do': 'load', 'kind': 'settings', 'settings': SETT}, load, {'do': 'edit', 'obj': kind, 'kind': kind, 'set': ed}], \
            {'do': 'save', 'obj': kind, 'kind': kind, 'with': 'settings', 'settings': SETT}

    def setup(self, world, spec):
        env = world.env()
        P.write_project(spec['project'], env.path('p'))
        os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
        os.makedirs(env.path('w'))
        if spec['job'].startswith('clean') or spec['old'] and spec['job'] == 'run':
            res = world.reference(spec['project'])
            for top in ('_results', '_plots'):
                for rel, v in sorted(compare.sub(res['after'], top).items()):
                    p = env.path('p', top, rel)
                    if v[0] == 'd':
                        os.makedirs(p, exist_ok=True)
                    elif v[0] == 'f':
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, 'wb') as fp:
                            fp.write(v[1] if spec['job'].startswith('clean') else b'earlier ' + v[1][:20])
            os.makedirs(env.path('p', '_results', 'other_000'), exist_ok=True)
            for n in 'abc':
                with open(env.path('p', '_results', 'other_000', n), 'w') as fp:
                    fp.write(n)
        return env, 'w' if spec['job'] == 'template' else 'p'

    def reference(self, world, spec, lines=False):
        def fn():
            env, cwd = self.setup(world, spec)
            pre, job = self.steps(spec)
            r = env.node(pre + [job], cwd=cwd, lines=lines)
            need_done(r, 'undisturbed ' + spec['job'], crash_ok=False)
            if not r['steps'][-1]['ok']:
                raise Violation('fails-undisturbed', f'{spec["job"]}: {describe(r)}')
            out = {'trace': r['trace'][r['steps'][-1]['ops'][0]:] if pre else r['trace'], 'stats': r['stats'], 'cover': r.get('cover'), 'tree': env.snap()}
            env.close()
            return out
        key = {k: spec.get(k) for k in ('project', 'job', 'cli', 'kind', 'variant', 'old')}
        return world.cached(['c20', key, lines], fn)

    def execute(self, world, spec):
        ref = self.reference(world, spec)
        env, cwd = self.setup(world, spec)
        pre, job = self.steps(spec)
        before = env.snap()
        fl = [dict(f, snap='') if f['act'] == 'kbd' else f for f in spec['faults']]
        steps = pre + ([{'do': 'faults', 'faults': fl}] if pre else []) + [job]
        r = env.node(steps, faults=[] if pre else fl, knobs=spec['knobs'], cwd=cwd, lines=any(f['on'] == 'line' for f in fl))
        need_done(r, spec['job'] + (' after a cancellation' if r.get('at_kbd') else ''), crash_ok=False)
        s = r['steps'][-1]
        fired = [f for f in r['fired'] if f[0] != 'clock_jump']
        hit = [f for f in fired if f[0] == 'kbd']
        if not fired and not s['ok']:
            raise Violation('fails-undisturbed', f'{spec["job"]}: {describe(r)}')
        if hit:
            what = f'{spec["job"]}, Ctrl-C at {hit[0][1]} {hit[0][2]} {hit[0][3]}'
            if s['ok']:
                raise Violation('swallowed-cancellation', f'{what}: success is reported')
            if s['exc'] not in ('KeyboardInterrupt', 'SystemExit'):
                raise Violation('masked-cancellation', f'{what}: the caller sees {s["exc"]} {s.get("msg")}')
            a, b = r['at_kbd'], r['stats']
            for k in ('kernel', 'lapack', 'render'):
                if b[k] > a[k]:
                    raise Violation('work-after-cancellation', f'{what}: {b[k] - a[k]} {k} calls afterwards')
            if b['cpacs'] > a['cpacs'] + 6:
                raise Violation('work-after-cancellation', f'{what}: {b["cpacs"] - a["cpacs"]} library calls afterwards')
            for k, n in MAX_AFTER.items():
                if b[k] > a[k] + n:
                    raise Violation('work-after-cancellation', f'{what}: {b[k] - a[k]} {k} afterwards')
            then, after = only_files(r['snaps'][0]), only_files(env.snap())
            for rel in sorted(after):
                if rel not in then:
                    raise Violation('work-after-cancellation', f'{what}: {rel} was created afterwards')
                if after[rel] != then[rel] and '/_plots/' not in rel:
                    raise Violation('work-after-cancellation', f'{what}: {rel} was changed afterwards')
            if spec['job'] != 'template':
                gone = sorted(set(then) - set(after))
                gone = [g for g in gone if g in before or spec['job'].startswith('clean')]
                if gone:
                    raise Violation('work-after-cancellation', f'{what}: {gone[0]} was removed afterwards')
            if len(fired) == 1 and hit[0][1] != 'line':
                # (between two statements nothing can be guaranteed)
                left = [k for k, v in env.snap().items() if v[0] != 'd' and k not in before and k not in ref['tree'] and not (k.endswith('.png') and '/_plots/' in k and not hidden(k))]
                if left:
                    raise Violation('litter', f'{what}: {left[0]} is left behind')
        return {'key': digest([spec['job'], spec['cli'], spec['project'], spec.get('kind'), [f[:4] for f in fired]]), 'nontrivial': bool(hit),
                'classes': [spec['job'] + (' command' if spec['cli'] else '')] + [f'{f[0].split(":")[0]}@{f[1]}' for f in fired[:2]]}


PROP = C20()
