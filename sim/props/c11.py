"""C11: a failed or impossible solution is never presented as a result."""
import json

from .. import compare, faults as F, project as P
from ..base import Prop, SAVE_FILE, Violation, describe, digest, expected_results, files, need_done

KERNEL = ('py2c_lattice', 'py2c_downwash', 'py2c_boundary', 'py2c_results')


def twin(rng, proj):
    """The same wing twice: every row of the linear system occurs twice."""
    p = json.loads(json.dumps(proj))
    ws = p['cpacs']['ac.xml']['wings'] if p.get('cpacs') else p['aircraft']['ac.json']['wings']
    w = json.loads(json.dumps(rng.choice(ws)))
    w['uid'] = 'twin'
    for s in w['segments']:
        s['uid'] = 'twin' + s['uid']
    for c in w.get('controls', ()):
        c['uid'] = 'twin' + c['uid']
        c['segment_uid'] = {k: 'twin' + v for k, v in c['segment_uid'].items()}
    ws.append(w)
    p['deformation'] = {}
    p['settings']['main'].pop('deformation', None)
    return p


class C11(Prop):
    id = 'C11'
    quick, thorough = 1500, 32000
    list_paths = [['faults'], ['io']]
    rule = ('case = random project of 1-5 states (plots in some, results of an earlier version present in some) x a solver that reports a '
            'singular or rejected system, a failing kernel routine or a kernel that refuses its input, or a failed allocation, in a random '
            'state; or a geometry whose system really is singular; x legal I/O behaviour; oracle: the analysis fails and returns nothing, '
            'no file changes after the failure, the failed and later states and the map have no new file, earlier states are as in an '
            'undisturbed run; non-trivial when a failure struck; distinct by (project, failure)')
    key_rule = 'distinct (project, failure placement, earlier results) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.2 else 'off'
        proj = P.any_project(prng, plots=plots, small=True if plots == 'some' else None, states=prng.choice([1, 2, 3, 4, 5]) if plots == 'off' else None)
        n = P.count(proj)
        spec = {'project': proj, 'faults': [], 'stale': None, 'twin': False, 'cli': rng.choice([None, None, [], ['--quiet']]), 'knobs': F.knobs(rng),
                'io': [F.short_io(rng)] if rng.random() < 0.15 else []}
        k = rng.choice(['lapack', 'lapack', 'kernel', 'kernel', 'alloc', 'twin'])
        if k == 'lapack':
            spec['faults'] = [{'on': 'lapack', 'nth': rng.randint(1, n), 'act': rng.choice(['singular', 'singular', 'reject', 'memerr'])}]
        elif k == 'kernel':
            spec['faults'] = [{'on': 'kernel', 'kinds': [rng.choice(KERNEL)], 'nth': rng.randint(1, n), 'act': rng.choice(['runtime', 'memerr', 'reject', 'reject'])}]
        elif k == 'alloc':
            m = max(1, world.reference(proj)['stats']['alloc'])
            spec['faults'] = [{'on': 'alloc', 'nth': rng.choice([rng.randint(1, m), rng.randint(1, min(m, 30))]), 'act': 'memerr'}]
        else:
            spec['project'] = proj = twin(rng, proj)
            spec['twin'] = True
        if spec['faults'] and rng.random() < 0.15:
            spec['faults'][0]['count'] = 1000
        for f in spec['faults']:
            f['snap'] = 'p'
        if rng.random() < 0.35 and not spec['twin'] and not proj.get('cpacs'):
            spec['stale'] = P.gen_states(rng, max(1, n + rng.choice([-1, 0, 0, 1])))
        return spec

    def execute(self, world, spec):
        proj = spec['project']
        env = world.env()
        P.write_project(proj, env.path('p'))
        if spec['stale']:
            import os
            for kind in ('results', 'plots'):
                for rel, v in world.reference(dict(proj, state={'st.json': spec['stale']}))[kind].items():
                    if v[0] == 'f':
                        os.makedirs(os.path.dirname(env.path('p/_' + kind, rel)), exist_ok=True)
                        with open(env.path('p/_' + kind, rel), 'wb') as fp:
                            fp.write(v[1])
        before = env.snap('p')
        st = '@/p/settings/main.json'
        step = {'do': 'run', 'settings': st} if spec['cli'] is None else {'do': 'cli', 'argv': ['--run', st] + spec['cli']}
        r = env.node([step], faults=spec['faults'] + spec['io'], knobs=spec['knobs'])
        need_done(r, 'analysis', crash_ok=False)
        s = r['steps'][0]
        after = env.snap('p')
        struck = [f for f in r['fired'] if f[1] in ('lapack', 'kernel', 'alloc')]
        bad = [i for i in r['infos'] if i != 0]
        n = P.count(proj)
        what = f'{struck[0][0]} in {struck[0][2]}' if struck else f'solver status {bad[0]}' if bad else ''
        if not what:
            if not s['ok'] and not spec['twin']:
                raise Violation('fails-undisturbed', describe(r))
            return {'key': digest(proj), 'nontrivial': False, 'classes': ['no failure']}
        if s['ok']:
            raise Violation('failure-presented-as-result', f'{what}, but the analysis reports success')

        def outputs(tree):
            return {k: v for k, v in tree.items() if v[0] != 'd' and (k.startswith('_results/') or k.startswith('_plots/'))}
        end = outputs(after)
        if struck:
            then = outputs(r['snaps'][0])
            ch = sorted(k for k in set(then) | set(end) if then.get(k) != end.get(k))
            if struck[0][1] != 'alloc' and ch:
                raise Violation('written-after-failure', f'{ch[0]} was written after {what}')
        # the failing state: each kernel routine and the solver run once per state
        first = None
        if struck and struck[0][1] in ('lapack', 'kernel'):
            first = spec['faults'][0]['nth'] - 1
        elif bad:
            first = r['infos'].index(bad[0])
        old = outputs(before)
        new = {k for k in end if end[k] != old.get(k)} | (set(old) - set(end))
        m = '_results/main_aeroperformance.json'
        if m in new:
            raise Violation('failure-presented-as-result', f'an aeroperformance map was written although: {what}')
        for f in proj.get('cpacs', {}):
            if after.get('aircraft/' + f) != before['aircraft/' + f]:
                raise Violation('failure-presented-as-result', f'the CPACS file was updated although: {what}')
        ref = None if spec['twin'] else world.reference(proj)
        for k in range(n):
            for kind in ('_results', '_plots'):
                mine = sorted(f for f in new if f.startswith(f'{kind}/main_{k:03d}/'))
                if first is not None and k >= first and mine:
                    raise Violation('failure-presented-as-result', f'{what} in state {first}, but {mine[0]} was written')
                if first is not None and k < first and ref is not None:
                    want = {f: v for f, v in compare.sub(ref[kind[1:]], f'main_{k:03d}').items() if v[0] != 'd'}
                    got = compare.sub(after, f'{kind}/main_{k:03d}')
                    got = {f: v for f, v in got.items() if v[0] != 'd'}
                    if kind == '_plots':
                        want, got = compare.norm_plots(want), compare.norm_plots({f: v for f, v in got.items() if f'{kind}/main_{k:03d}/{f}' in new})
                    d = compare.diff_outputs(got, want, subset=True)
                    if d:
                        raise Violation('earlier-state-damaged', f'{what} in state {first}; state {k}: {d}')
        return {'key': digest([proj, struck, spec['faults'], bool(spec['stale'])]), 'nontrivial': True,
                'classes': [f'{struck[0][0]}@{struck[0][1]}' if struck else 'singular geometry', 'state %s of %d' % (first, n)]}


PROP = C11()
