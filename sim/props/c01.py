"""C01: every flight state of a batch gets exactly the result it would get alone."""
from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, describe, digest, need_done

MAPKEYS = None


def apm_entry(data, i):
    """The i-th entry of an aeroperformance map (constants stay as they are)."""
    out = {}
    for k, v in data.items():
        if isinstance(v, list):
            out[k] = [v[i]] if v else []
        else:
            out[k] = v
    return out


def check_state_outputs(results, name, pos, alone, what):
    """Files below <name>_<pos> against those of the analysis of that state alone."""
    got = compare.sub(results, f'{name}_{pos:03d}')
    want = compare.sub(alone['results'], f'{name}_000')
    d = compare.diff_outputs(got, want)
    if d:
        raise Violation('batch-differs-from-single', f'{what}: result files: {d}')


def check_batch(world, proj, name, idx, results, data, tree=None):
    import json
    if tree is not None:
        plots = compare.sub(tree, '_plots')
        for pos, i in enumerate(idx):
            want = world.reference(P.with_states(proj, [i], name), name)['plots']
            d = compare.diff_outputs(compare.norm_plots(compare.sub(plots, f'{name}_{pos:03d}')), compare.norm_plots(compare.sub(want, f'{name}_000')))
            if d:
                raise Violation('batch-differs-from-single', f'plots of state {i} at position {pos} of {idx}: {d}')
    alone = [world.reference(P.with_states(proj, [i], name), name) for i in idx]
    for pos, i in enumerate(idx):
        check_state_outputs(results, name, pos, alone[pos], f'state {i} at position {pos} of {idx}')
    extra = sorted({k.split('/')[0] for k in results} - {f'{name}_{p:03d}' for p in range(len(idx))} - {f'{name}_aeroperformance.json'})
    if extra:
        raise Violation('batch-differs-from-single', f'unexpected {extra[0]} for {len(idx)} states')
    mapname = f'{name}_aeroperformance.json'
    if (mapname in results) != (mapname in alone[0]['results']):
        raise Violation('batch-differs-from-single', 'aeroperformance map missing or unexpected')
    if mapname in results:
        try:
            m = json.loads(results[mapname][1])
        except ValueError:
            raise Violation('batch-differs-from-single', 'unreadable aeroperformance map')
        for k, v in m.items():
            if isinstance(v, list) and v and len(v) != len(idx):
                raise Violation('batch-differs-from-single', f'map: {k} has {len(v)} entries for {len(idx)} states')
        for pos, i in enumerate(idx):
            want = apm_entry(json.loads(alone[pos]['results'][mapname][1]), 0)
            got = apm_entry(m, pos)
            d = compare.same_dict(got, want)
            if d:
                raise Violation('batch-differs-from-single', f'map entry {pos} (state {i} of {idx}): {d}')
    for n, d in proj.get('cpacs', {}).items():
        # the vectors written back to CPACS
        rel = 'aircraft/' + n
        uid = C.used_map(d)
        got = C.strip(C.parse(tree[rel][1]), uid)[0]
        for pos, i in enumerate(idx):
            want = C.strip(C.parse(alone[pos]['after'][rel][1]), uid)[0]
            if proj['settings'][name]['state'].lower() != '__cpacs':
                break
            sc = max(abs(v) for w in want.values() for x in w for v in x)
            for v in sorted(want):
                if len(got.get(v, [])) != 1 or len(got[v][0]) != len(idx) or abs(got[v][0][pos] - want[v][0][0]) > 1e-6 * abs(want[v][0][0]) + 1e-9 * sc:
                    raise Violation('batch-differs-from-single', f'CPACS vector {v} at {pos} (state {i} of {idx}): {got.get(v)} instead of {want[v][0][0]!r}')
    if data is not None:
        last = alone[-1]['data']
        skip = ('settings', 'state_aero', 'state_results', 'shown')
        d = compare.same_data({k: v for k, v in data.items() if k not in skip}, {k: v for k, v in last.items() if k not in skip})
        if d:
            raise Violation('batch-differs-from-single', f'data of the last state ({idx[-1]} of {idx}): {d}')
        d = compare.same_shown(data.get('shown', []), [x for a in alone for x in a['data'].get('shown', [])])
        if d:
            raise Violation('batch-differs-from-single', f'{len(idx)} states: {d}')
        for pos, i in enumerate(idx):
            for key in ('state_aero', 'state_results'):
                d = compare.same_dict({k: [v[pos]] for k, v in data[key].items()}, {k: [v[0]] for k, v in alone[pos]['data'][key].items()})
                if d:
                    raise Violation('batch-differs-from-single', f'returned {key} entry {pos} (state {i} of {idx}): {d}')


class C01(Prop):
    id = 'C01'
    quick, thorough = 1000, 24000
    rule = ('case = random project (geometry, controls, deformation, settings) x a random history of flight states drawn from its '
            'state list (any length 2-7, order, repetition) x legal I/O behaviour (buffer size, short reads/writes, clock); non-trivial '
            'when at least two states are analysed; distinct by (project, state history)')
    key_rule = 'distinct (project, state history) pairs'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.13 else 'off'
        proj = P.any_project(prng, states=prng.choice([2, 3, 4, 5]), deform=prng.random() < 0.45, plots=plots,
                             small=True if plots == 'some' else None)
        n = P.count(proj)
        k = rng.choice([2, 2, 3, 3, 4, 5, 7, 7, 12] if tier == 'quick' else [2, 3, 3, 4, 5, 7, 12, 25])
        if plots == 'off' and rng.random() < (0.0 if tier == 'quick' else 0.01):
            k = 101
        idx = [rng.randrange(n) for _ in range(k)] if rng.random() < 0.6 else rng.sample(range(n), n)
        kn = F.knobs(rng)
        if rng.random() < 0.3:
            kn['poison'] = rng.randrange(4)
        faults = [F.short_io(rng)] if rng.random() < 0.3 and len(idx) <= 12 else []
        if len(idx) > 7:
            kn.pop('bufsize', None)
        return {'project': proj, 'idx': idx, 'knobs': kn, 'faults': faults, 'cli': rng.random() < 0.2}

    list_paths = [['idx'], ['faults']]
    project_paths = []

    def shrinks(self, spec):
        yield from (s for s in super().shrinks(spec) if s['idx'])
        import json
        from ..base import shrink_projects
        for s in shrink_projects(spec, ['project']):
            if P.count(s['project']) == P.count(spec['project']):
                yield s

    def execute(self, world, spec):
        proj, idx = spec['project'], spec['idx']
        p = P.with_states(proj, idx)
        env = world.env()
        P.write_project(p, env.path('p'))
        st = env.path('p', 'settings', 'main.json')
        step = {'do': 'cli', 'argv': ['--run', st, '--quiet']} if spec['cli'] else {'do': 'run', 'settings': st}
        r = env.node([step], faults=spec['faults'], knobs=spec['knobs'])
        need_done(r, 'batch analysis', crash_ok=False)
        if not r['steps'][0]['ok']:
            raise Violation('batch-fails', f'analysis of {len(idx)} states fails although each state alone can be analysed: {describe(r)}')
        tree = env.snap('p')
        check_batch(world, proj, 'main', idx, compare.sub(tree, '_results'), r['steps'][0]['value'], tree)
        return {'key': [digest(proj), idx], 'nontrivial': len(idx) > 1,
                'classes': ['deformed' if proj['deformation'] else 'rigid', 'repeats' if len(set(idx)) < len(idx) else 'distinct',
                            'cpacs' if proj.get('cpacs') else 'controls' if any(w.get('controls') for w in proj['aircraft']['ac.json']['wings']) else 'clean wing']}


PROP = C01()
