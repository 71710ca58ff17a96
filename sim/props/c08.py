"""C08: creating a project template never touches existing work."""
import json
import os

from .. import compare, faults as F, monitors as M, project as P
from ..base import Prop, Violation, check_monitor, describe, digest, need_done

NAME = 'pytornado'


def variants():
    """None (minimal example) and the aircraft of the database of the tree under test."""
    from .. import seams
    d = seams.DBDIR
    return [None] + sorted(n[:-5] for n in os.listdir(d) if n.endswith('.json'))


class C08(Prop):
    id = 'C08'
    quick, thorough = 2400, 60000
    list_paths = [['faults'], ['switches'], ['around']]
    project_paths = []
    rule = ('case = minimal example or database aircraft x API or command line x what already exists at the target (nothing, project, empty '
            'directory, file, links, broken link) x one to three creations at the same time under one schedule x fault at any file operation '
            'or source line; oracle: refusal without any change, or a tree equal to an undisturbed template, which must be complete, load to '
            'the model of the database and be analysable; non-trivial when a refusal, a race or a fault was exercised')
    key_rule = 'distinct (variant, existing target, schedule, fault) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        var = variants()
        slot, rest = divmod(seed, self.per_project)     # spread over the workers
        if rest == 0 and slot < 2 * len(var):
            return {'mode': 'analyse' if slot < len(var) else 'content', 'variants': [var[slot % len(var)]]}
        n = rng.choice([1, 1, 1, 2, 2, 3])
        spec = {'mode': 'create', 'variants': [rng.choice([None, None] + var) for _ in range(n)], 'cli': [rng.random() < 0.5 for _ in range(n)],
                'existing': rng.choice(['none', 'project', 'full', 'empty', 'file', 'emptyfile', 'linkdir', 'linkempty', 'linkfile', 'broken']) if n == 1 and rng.random() < 0.5 else 'none',
                'around': [x for x in ['notes.txt', 'settings/template.json', 'aircraft/template_aircraft.json', 'pytornado.json', 'Pytornado/x', 'state/template.json']
                           if rng.random() < 0.4],
                'faults': [], 'switches': [], 'knobs': F.knobs(rng), 'second': rng.random() < 0.3}
        if rng.random() < 0.06:
            spec['unknown'] = rng.choice(['nope', '', 'd150x', '../settings', 'NASA'])
            spec['variants'], spec['cli'] = [None], [True]
            n = 1
        if n > 1:
            from .c03 import switches
            spec['switches'] = switches(rng, n, rng.choice([12, 60, 200]))
        if rng.random() < (0.75 if n == 1 else 0.4):
            v = spec['variants'][0]
            ref = self.template(world, v)
            k = rng.choice(['op', 'op', 'full', 'line', 'line'])
            if k == 'op':
                f = F.op_fault(rng, ref['trace'], weights={'out': 6, 'mkdir': 5, 'in': 3, 'del': 1}, acts=('errno', 'errno', 'errno', 'torn_err', 'crash', 'crash_after', 'torn_crash', 'kbd'))
            elif k == 'full':
                f = F.disk_full(rng, ref['trace'])
            else:
                f = F.line_fault(rng, self.template(world, v, True)['cover'], ['kbd', 'crash', 'memerr'])
            if f:
                spec['faults'] = [f]
        return spec

    def step(self, v, cli):
        if cli:
            return {'do': 'cli', 'argv': ['--make-example'] if v is None else ['--make-example-from-db', v]}
        return {'do': 'template', 'db': v}

    def template(self, world, v, lines=False):
        def fn():
            env = world.env()
            os.makedirs(env.path('w'))
            r = env.node([self.step(v, False)], cwd='w', lines=lines)
            need_done(r, 'undisturbed template', crash_ok=False)
            if not r['steps'][0]['ok']:
                raise Violation('creation-fails', f'template {v}: {describe(r)}')
            out = {'tree': env.snap('w'), 'trace': r['trace'], 'cover': r.get('cover')}
            env.close()
            return out
        return world.cached(['c08', v, lines], fn)

    def execute(self, world, spec):
        if spec['mode'] == 'analyse':
            return self.analyse(world, spec['variants'][0])
        if spec['mode'] == 'content':
            return self.content(world, spec['variants'][0])
        env = world.env()
        os.makedirs(env.path('w'))
        for rel in spec['around']:
            p = env.path('w', rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fp:
                fp.write('mine ' + rel)
        ex = spec['existing']
        t = env.path('w', NAME)
        os.makedirs(env.path('elsewhere'))
        if ex in ('project', 'full'):
            for rel in ['settings/template.json', 'aircraft/template_aircraft.json', '_results/template_000/global.json', 'state/template.json'] + \
                    ([f'{d}/{v}.json' for d in ('aircraft', 'state', 'settings') for v in variants() if v] if ex == 'full' else []):
                p = os.path.join(t, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fp:
                    fp.write('work of a week')
        elif ex == 'empty':
            os.makedirs(t)
        elif ex in ('file', 'emptyfile'):
            with open(t, 'w') as fp:
                fp.write('mine' if ex == 'file' else '')
        elif ex in ('linkdir', 'linkempty'):
            if ex == 'linkdir':
                with open(env.path('elsewhere', 'x'), 'w') as fp:
                    fp.write('mine')
            os.symlink('../elsewhere', t)
        elif ex == 'linkfile':
            with open(env.path('elsewhere', 'x'), 'w') as fp:
                fp.write('mine')
            os.symlink('../elsewhere/x', t)
        elif ex == 'broken':
            os.symlink('../elsewhere/gone', t)
        before = env.snap()

        def ok(rel, kind):
            return ex == 'none' and 'unknown' not in spec and (rel == NAME or rel.startswith(NAME + '/'))
        mon = [M.allowed('w', ok, 'touched-existing')]
        steps = [[self.step(v, c)] for v, c in zip(spec['variants'], spec['cli'])]
        if 'unknown' in spec:
            steps = [[{'do': 'cli', 'argv': ['--make-example-from-db', spec['unknown']]}]]
        if spec['second']:
            steps[0] = steps[0] * 2          # the user repeats the command
        if len(steps) == 1:
            res = [env.node(steps[0], faults=spec['faults'], knobs=spec['knobs'], monitors=mon, cwd='w')]
        else:
            res, _, _ = env.processes([{'steps': s, 'cwd': 'w', 'faults': spec['faults'] if i == 0 else []} for i, s in enumerate(steps)],
                                      spec['switches'], knobs=spec['knobs'], monitors=mon)
        for i, r in enumerate(res):
            need_done(r, f'creation {i}')
            check_monitor(r)
            if r.get('outside'):
                raise Violation('touched-existing', f'{r["outside"][0]} outside the working directory')
        after = env.snap()
        for rel, v in before.items():
            if after.get(rel) != v:
                raise Violation('touched-existing', f'{rel} {"changed" if rel in after else "vanished"} (existing: {ex})')
        won = [(i, j) for i, r in enumerate(res) for j, s in enumerate(r['steps']) if s['ok']]
        desc = ', '.join(describe(r) for r in res)
        if ex != 'none' or 'unknown' in spec:
            if won:
                raise Violation('not-refused', f'creation reports success although the target exists ({ex})' if ex != 'none' else f'unknown aircraft {spec["unknown"]!r} accepted')
            extra = sorted(set(after) - set(before))
            if extra:
                raise Violation('touched-existing', f'{extra[0]} was added although creation was refused ({ex})')
        else:
            if len(won) > 1:
                raise Violation('several-winners', f'{len(won)} creations in one directory report success')
            for rel in after:
                if rel not in before and not (rel == f'w/{NAME}' or rel.startswith(f'w/{NAME}/')):
                    raise Violation('touched-existing', f'{rel} was created beside the template')
            fired = [f for r in res for f in r['fired'] if f[0] != 'clock_jump']
            if not won and not fired:
                raise Violation('creation-fails', f'nobody succeeded without any fault: {desc}')
            if won:
                v = spec['variants'][won[0][0]]
                want = self.template(world, v)['tree']
                got = compare.sub(after, 'w')
                d = compare.diff_outputs({k: x for k, x in got.items() if k == NAME or k.startswith(NAME + '/')}, want)
                if d:
                    raise Violation('incomplete-template', f'creation reports success ({desc}; faults {fired}): {d}')
        hit = [f for r in res for f in r['fired'] if f[0] != 'clock_jump']
        return {'key': digest([spec['variants'], spec['cli'], ex, spec['switches'], [f[:4] for f in hit], spec['around']]),
                'nontrivial': bool(hit or ex != 'none' or len(steps) > 1),
                'classes': [ex, f'{len(steps)} creators'] + [f[0].split(':')[0] + '@' + f[1] for f in hit[:1]]}

    def analyse(self, world, v):
        env = world.env()
        os.makedirs(env.path('w'))
        name = v or 'template'
        st = f'@/w/{NAME}/settings/{name}.json'
        r = env.node([self.step(v, True), {'do': 'run', 'settings': st, 'data': False}], cwd='w')
        need_done(r, 'template and analysis', crash_ok=False)
        if not all(s['ok'] for s in r['steps']):
            raise Violation('template-unusable', f'template {name}: {describe(r)}')
        # the command line gives the same template as the API
        d = compare.diff_outputs({k: x for k, x in env.snap('w').items() if k.split('/')[-1] != 'log.txt'}, self.template(world, v)['tree'])
        if d:
            raise Violation('incomplete-template', f'{name}: {d}')
        return {'key': 'analyse ' + name, 'nontrivial': True, 'classes': ['analyse']}

    def content(self, world, v):
        """What the template holds: loadable files which refer to each other, the model of the database."""
        env = world.env()
        os.makedirs(env.path('w'))
        name = v or 'template'
        st = f'@/w/{NAME}/settings/{name}.json'
        r = env.node([self.step(v, False)] + [{'do': 'load', 'kind': k, 'settings': st} for k in ('settings', 'aircraft', 'state')], cwd='w')
        need_done(r, 'template and load', crash_ok=False)
        if not all(s['ok'] for s in r['steps']):
            raise Violation('template-unusable', f'template {name}: {describe(r)}')
        tree = compare.sub(env.snap('w'), NAME)
        for d in ('aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results'):
            if tree.get(d, ('',))[0] != 'd':
                raise Violation('incomplete-template', f'{name}: no directory {d}')
        if v is not None:
            from .. import seams
            src = json.load(open(seams.DBDIR + v + '.json'))
            P.write_project({'settings': {'x': {'aircraft': 'a.json', 'state': 's.json'}}, 'aircraft': {'a.json': src}, 'state': {'s.json': {}}}, env.path('db'))
            r2 = env.node([{'do': 'load', 'kind': 'aircraft', 'settings': '@/db/settings/x.json'}])
            if r2['status'] != 'done' or not r2['steps'][0]['ok']:
                raise Violation('template-unusable', f'database aircraft {v} does not load: {describe(r2)}')
            a, b = r['steps'][2]['value'], r2['steps'][0]['value']
            d = compare.same_values(a, b)
            if d:
                raise Violation('incomplete-template', f'{name}: the model differs from the database: {d}')
        return {'key': 'content ' + name, 'nontrivial': True, 'classes': ['content']}


PROP = C08()
