"""C03: concurrent analyses (several processes or several threads of one process) do not disturb each other."""
import json
import os

from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, check_monitor, describe, digest, need_done, owned


def switches(rng, n, total):
    """A schedule: some bursts of frequent switches, some isolated ones."""
    out = {}
    for _ in range(rng.choice([1, 2, 4, 8])):
        at = rng.randint(1, max(2, total))
        for j in range(rng.choice([1, 1, 3, 10, 40])):
            out[at] = rng.randrange(n)
            at += rng.choice([1, 1, 2, 5])
    if rng.random() < 0.25:
        at = 1
        while at < total:                      # alternate all the way
            out[at] = rng.randrange(n)
            at += rng.choice([1, 1, 2, 3])
    return sorted(out.items())


def variant_settings(rng, se, other_state):
    v = json.loads(json.dumps(se))
    v['vlm_autopanels_c'] = rng.choice([1, 2, 3])
    v['save_results'] = {k: rng.random() < 0.7 for k in P.SAVE_KEYS}
    if other_state:
        v['state'] = 'st2.json'
    return v


class C03(Prop):
    id = 'C03'
    quick, thorough = 900, 20000
    per_project = 5
    list_paths = [['switches'], ['faults'], ['pauses']]
    rule = ('case = 2-3 analyses (separate projects, or one project under different settings files sharing model, airfoil, deformation '
            'and state files) x process or thread mode x a seeded schedule of context switches at every file operation and kernel call '
            '(threads also at source lines, evenly spaced or at chosen functions) x optional fault or crash in one of them x up to two others who clean, save, load, analyse or create other projects meanwhile; oracle: each analysis run alone; non-trivial when '
            'at least one switch happened while two analyses were in progress; distinct by (projects, executed interleaving)')
    key_rule = 'distinct (projects, executed interleaving) pairs'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        n = prng.choice([2, 2, 2, 3])
        mode = 'threads' if prng.random() < 0.5 else 'procs'
        shared = prng.random() < 0.5
        plots = 'some' if (mode == 'procs' and prng.random() < 0.06) else 'off'
        if shared:
            proj = P.any_project(prng, states=prng.choice([1, 2, 3]), plots=plots, small=True if plots == 'some' else None)
            if proj.get('cpacs') and not proj['state']:
                # which analysis writes to the CPACS file last is open: share it read-only
                proj['settings']['main']['state'] = 'st.json'
                proj['state']['st.json'] = P.gen_states(prng)
            if prng.random() < 0.5:
                proj['state']['st2.json'] = P.gen_states(prng)
            names = prng.choice([['main', 'other', 'third'], ['main', 'main2', 'main_b'], ['a', 'a_b', 'a_000']])
            base = proj['settings'].pop('main')
            for i in range(n):
                proj['settings'][names[i]] = json.loads(json.dumps(base)) if i == 0 else \
                    variant_settings(prng, base, 'st2.json' in proj['state'] and prng.random() < 0.6)
            runs = [['p', names[i]] for i in range(n)]
            projects = {'p': proj}
        else:
            projects = {f'p{i}': P.any_project(prng, states=prng.choice([1, 2]), plots=plots, small=True if plots == 'some' else None)
                        for i in range(n)}
            runs = [[f'p{i}', 'main'] for i in range(n)]
        line_preempt = rng.choice([0, 0, 0, 7, 23, 101]) if mode == 'threads' else 0
        pauses = []
        if mode == 'threads' and rng.random() < 0.65:
            covers = [self.ref(world, projects[d], name, True)['cover'] for d, name in runs]
            for _ in range(rng.choice([1, 2, 4, 8, 30, 60])):
                i, j = rng.sample(range(n), 2)
                f, k = F.spot(rng, covers[i])
                pauses.append({'node': i, 'func': f, 'nth': k, 'to': j})
            if rng.random() < 0.3:
                # two threads go through the same functions line by line
                i, j = rng.sample(range(n), 2)
                for f in rng.sample(sorted(set(covers[i]) & set(covers[j])), rng.choice([1, 3, 8])):
                    for a, b in ((i, j), (j, i)):
                        pauses += [{'node': a, 'func': f, 'nth': k, 'to': b} for k in range(1, min(covers[a][f], 25) + 1)]
        total = 60 * n if not line_preempt else 60 * n + 9000 * n // line_preempt
        switch = switches(rng, n, total)
        faults = []
        if rng.random() < 0.35:
            victim = rng.randrange(n)
            d, name = runs[victim]
            tr = [(a, b, c.replace('p/', d + '/', 1) if c.startswith('p/') else c) for a, b, c in
                  self.ref(world, projects[d], name)['trace']]
            acts = ('errno', 'torn_err', 'kbd') if mode == 'threads' else ('errno', 'torn_err', 'kbd', 'crash', 'torn_crash', 'crash_after')
            f = F.op_fault(rng, tr, acts=acts, exclude=['*log.txt'])
            if rng.random() < 0.25:
                f = rng.choice([{'on': 'kernel', 'nth': rng.randint(1, 6), 'act': 'runtime'}, {'on': 'alloc', 'nth': rng.randint(1, 8), 'act': 'memerr'}])
            if f:
                faults = [dict(f, node=victim)]
        others = []
        if rng.random() < 0.35:
            # somebody else works on other projects meanwhile
            for i in range(rng.choice([1, 1, 2])):
                o = {'job': rng.choice(['clean', 'save', 'save', 'load', 'run', 'template']), 'kind': rng.choice(['aircraft', 'state', 'settings'])}
                if o['job'] == 'template':
                    if any(x['job'] == 'template' for x in others):
                        continue
                    from .c08 import variants
                    o.update(dir='pytornado', db=rng.choice([None] + variants()))
                else:
                    o.update(dir=f'x{i}', project=P.gen_project(prng, small=True))
                others.append(o)
            for _ in range(rng.choice([2, 6, 20]) * len(others)):
                switch.append((rng.randint(1, total), rng.randrange(n + len(others))))
            switch = sorted(dict(switch).items())
        return {'others': others, 'mode': mode, 'projects': projects, 'runs': runs, 'switches': switch, 'faults': faults,
                'line_preempt': line_preempt, 'pauses': pauses, 'knobs': F.knobs(rng), 'existing': rng.random() < 0.4}

    def ref(self, world, proj, name, lines=False):
        return world.reference(proj, name, lines)

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        if len(spec['runs']) > 2 and not spec.get('others'):
            for i in range(len(spec['runs'])):
                if not any(f['node'] == i for f in spec['faults']):
                    c = json.loads(json.dumps(spec))
                    del c['runs'][i]
                    c['faults'] = [dict(f, node=f['node'] - (f['node'] > i)) for f in c['faults']]
                    c['switches'] = [[k, v - (v > i)] for k, v in c['switches'] if v != i]
                    c['pauses'] = [dict(p, node=p['node'] - (p['node'] > i), to=p['to'] - (p['to'] > i)) for p in c['pauses']
                                   if i not in (p['node'], p['to'])]
                    yield c
        for i in range(len(spec.get('others', []))):
            k = len(spec['runs']) + i
            c = json.loads(json.dumps(spec))
            del c['others'][i]
            c['switches'] = [[a, b - (b > k)] for a, b in c['switches'] if b != k]
            yield c
        if spec['line_preempt']:
            c = json.loads(json.dumps(spec))
            c['line_preempt'] = 0
            yield c
        if spec['existing']:
            c = json.loads(json.dumps(spec))
            c['existing'] = False
            yield c

    def job(self, o):
        st = f'@/{o["dir"]}/settings/main.json'
        if o['job'] == 'template':
            return [{'do': 'template', 'db': o['db']}]
        if o['job'] in ('clean', 'run'):
            return [{'do': o['job'], 'settings': st}]
        k = o['kind']
        load = [{'do': 'load', 'kind': 'settings', 'settings': st}, {'do': 'load', 'kind': k, 'settings': st}]
        return load * 3 if o['job'] == 'load' else load + [{'do': 'save', 'obj': k, 'kind': k, 'with': 'settings', 'settings': st}] * 2 + load

    def prepare(self, env, o):
        if o['job'] != 'template':
            P.write_project(o['project'], env.path(o['dir']))
        if o['job'] == 'clean':
            for t in ('_results', '_plots'):
                os.makedirs(env.path(o['dir'], t, 'main_000'))
                with open(env.path(o['dir'], t, 'main_000', 'old'), 'w') as fp:
                    fp.write('old')

    def alone(self, world, o):
        def fn():
            env = world.env()
            self.prepare(env, o)
            r = env.node(self.job(o))
            need_done(r, o['job'], crash_ok=False)
            if not all(s['ok'] for s in r['steps']):
                raise Violation('undisturbed-failure', describe(r))
            return [s.get('value') for s in r['steps']], tidy(env.snap(o['dir']))
        return world.cached(['c03other', o], fn)

    def execute(self, world, spec):
        env = world.env()
        for d, proj in spec['projects'].items():
            P.write_project(proj, env.path(d))
        others = spec.get('others', [])
        for o in others:
            self.prepare(env, o)
        if spec['existing']:
            for d in spec['projects']:
                for k in P_DIRS:
                    os.makedirs(env.path(d, k), exist_ok=True)
        before = {d: env.snap(d) for d in spec['projects']}
        nodes = [{'steps': [{'do': 'run', 'settings': f'@/{d}/settings/{n}.json'}],
                  'faults': [{k: v for k, v in f.items() if k != 'node'} for f in spec['faults'] if f['node'] == i]}
                 for i, (d, n) in enumerate(spec['runs'])] + [{'steps': self.job(o)} for o in others]
        if spec['mode'] == 'threads':
            r = env.threads(nodes, spec['switches'], knobs=spec['knobs'], line_preempt=spec['line_preempt'], pauses=spec['pauses'])
            need_done(r, 'concurrent threads', crash_ok=False)
            steps = [t[0] if t else {'ok': False, 'exc': 'nothing'} for t in r['threads']]
            other = r['threads'][len(spec['runs']):]
            inter = r['interleaving']
        else:
            res, taken, order = env.processes(nodes, spec['switches'], knobs=spec['knobs'])
            steps, other = [], [x['steps'] for x in res[len(spec['runs']):]]
            for i, x in enumerate(res):
                need_done(x, f'analysis {i}', crash_ok=bool(spec['faults']) and spec['faults'][0]['node'] == i)
                steps.append(x['steps'][0] if x['status'] == 'done' else {'ok': False, 'exc': 'crash', 'msg': ''})
            inter = digest(order)
        after = {d: env.snap(d) for d in spec['projects']}
        hit = {f['node'] for f in spec['faults']}
        for i, (d, name) in enumerate(spec['runs']):
            ref = self.ref(world, spec['projects'][d], name)
            st = steps[i]
            if i in hit:
                if st['ok']:
                    self.outputs(after[d], ref, name, i, spec)
                continue
            if not st['ok']:
                raise Violation('concurrent-failure', f'analysis {i} ({d}/{name}) fails because of another one '
                                f'({spec["mode"]}): {st.get("exc")} {st.get("msg")}')
            self.outputs(after[d], ref, name, i, spec)
            dd = compare.same_data(st['value'], fix_dir(ref['data'], d))
            if dd:
                raise Violation('concurrent-difference', f'analysis {i} ({d}/{name}): {dd}')
        for o, got in zip(others, other):
            values, want = self.alone(world, o)
            who = f'{o["job"]} of another project at the same time ({spec["mode"]})'
            for x in got or [{'ok': False, 'exc': 'nothing'}]:
                if not x['ok']:
                    raise Violation('concurrent-failure', f'{who} fails: {x.get("exc")} {x.get("msg")}')
            for x, v in zip(got, values):
                d = compare.same_data(x.get('value'), v) if o['job'] == 'run' else compare.same_values(x.get('value'), v) if isinstance(v, dict) else \
                    None if x.get('value') == v else f'{x.get("value")} instead of {v}'
                if d:
                    raise Violation('concurrent-difference', f'{who}: {d}')
            t = tidy(env.snap(o['dir']))
            d = compare.diff_outputs(t, want)
            if d:
                raise Violation('concurrent-difference', f'{who}: {o["dir"]}: {d}')
        for d in spec['projects']:
            mine = [owned(n) for dd, n in spec['runs'] if dd == d] + [C.owned(spec['projects'][d])]
            e = [i for i, (dd, _) in enumerate(spec['runs']) if dd == d][0]
            if e not in hit:
                e = C.changed(self.ref(world, spec['projects'][d], spec['runs'][e][1])['after'], after[d], spec['projects'][d])
                if e:
                    raise Violation('concurrent-difference', f'{d}: {e}')
            for rel, v in before[d].items():
                if rel.startswith('aircraft/') and mine[-1](rel):
                    continue
                if after[d].get(rel) != v:
                    raise Violation('concurrent-damage', f'{d}/{rel} changed')
            for rel in after[d]:
                if rel not in before[d] and rel not in P_DIRS and not any(o(rel) for o in mine):
                    raise Violation('concurrent-damage', f'unexpected {d}/{rel}')
        return {'key': [digest(spec['projects']), spec['runs'], [o['job'] for o in others], inter], 'nontrivial': bool(spec['switches'] or spec['pauses']),
                'classes': [spec['mode'], 'shared project' if len(spec['projects']) == 1 else 'separate projects'] +
                (['one faulted'] if hit else []) + ['with ' + o['job'] for o in others]}

    def outputs(self, tree, ref, name, i, spec):
        import re
        pat = re.compile(rf'^{re.escape(name)}_(\d+|aeroperformance\.json)(/.*)?$')
        for top in ('_results', '_plots'):
            key = 'results' if top == '_results' else 'plots'
            got = {k: v for k, v in compare.sub(tree, top).items() if pat.match(k)}
            want = {k: v for k, v in ref[key].items() if pat.match(k)}
            if top == '_plots':
                got, want = compare.norm_plots(got), compare.norm_plots(want)
            d = compare.diff_outputs(got, want)
            if d:
                raise Violation('concurrent-difference', f'analysis {i} ({name}): {top}: {d}')


def tidy(tree):
    return {k: v for k, v in tree.items() if os.path.basename(k) != 'log.txt'}


P_DIRS = ['aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results']


def fix_dir(data, d):
    """The reference ran in directory p."""
    if d == 'p':
        return data
    out = dict(data)
    out['settings'] = json.loads(json.dumps(data['settings']).replace('<root>/p/', f'<root>/{d}/'))
    return out


PROP = C03()
