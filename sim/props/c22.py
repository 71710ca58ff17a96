"""C22: an analysis works on one reading of its inputs."""
import itertools
import json

from .. import compare, faults as F, project as P
from ..base import Prop, Violation, digest, need_done


def other_aircraft(rng, ac):
    v = json.loads(json.dumps(ac))
    for k in rng.sample(['refs', 'panels', 'shift', 'control', 'uid'], rng.choice([1, 2, 3])):
        if k == 'refs':
            v['refs']['area'] = P.rnd(rng, 2, 9)
        elif k == 'uid':
            v['uid'] = 'other' + v['uid']
        else:
            for w in v['wings']:
                for g in w['segments']:
                    if k == 'panels':
                        g['panels'] = {'num_c': rng.choice([1, 2, 3]), 'num_s': rng.choice([2, 3])}
                    elif k == 'shift':
                        for p in g['vertices'].values():
                            p[0] += 0.5
                for c in w.get('controls', []):
                    if k == 'control':
                        c['deflection'] = P.rnd(rng, -9, 9)
    return v


def other_settings(rng, se):
    v = json.loads(json.dumps(se))
    v['vlm_autopanels_c'] = rng.choice([1, 2, 3])
    v['vlm_autopanels_s'] = rng.choice([2, 3, 4])
    v['save_results'] = {k: rng.random() < 0.6 for k in P.SAVE_KEYS}
    return v


class C22(Prop):
    id = 'C22'
    quick, thorough = 900, 20000
    list_paths = [['edits']]
    rule = ('case = random native project x 1-2 edits by somebody else while the analysis runs (model, flight states, settings, deformation file '
            'replaced as a whole, rewritten unchanged or removed at any file operation of the set-up, source line or kernel call; airfoil files during '
            'the computation); oracle: the undisturbed analysis of the project with each edited file in its old or its new version, after the start '
            'of the computation in its old version; non-trivial when an edit happened; distinct by (project, edits)')
    key_rule = 'distinct (project, executed edits) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        proj = P.gen_project(prng, small=True if prng.random() < 0.7 else None, states=prng.choice([1, 2, 2, 3, 4]), deform=prng.random() < 0.4,
                             plots='some' if prng.random() < 0.06 else 'off')
        name = 'main'
        ref = world.reference(proj)
        ac, foils = proj['aircraft']['ac.json'], sorted(proj['airfoils'])
        what = rng.sample(['aircraft', 'state', 'settings', 'airfoils'] + ['deformation'] * 2 * bool(proj['deformation']), rng.choice([1, 1, 1, 2]))
        edits = []
        for k in dict.fromkeys(what):
            how = rng.choice(['other', 'other', 'other', 'same', 'gone'])
            if k == 'airfoils' and not foils:
                continue
            n = {'aircraft': 'ac.json', 'state': 'st.json', 'settings': name + '.json', 'deformation': 'def.json', 'airfoils': foils and rng.choice(foils)}[k]
            old = proj['settings'][name] if k == 'settings' else proj[k][n]
            if how == 'same':
                new = old
            elif how == 'gone':
                new = None
            else:
                new = {'aircraft': lambda: other_aircraft(rng, ac), 'state': lambda: P.gen_states(rng, rng.choice([P.count(proj), None])),
                       'settings': lambda: other_settings(rng, old), 'deformation': lambda: P.gen_deformation(rng, ac),
                       'airfoils': lambda: P.BLADE.format(name='edited', u1=.012, u2=.03, u3=.04, u4=.03, l1=-.01, l2=-.02, l3=-.03, l4=-.02)}[k]()
            if k == 'airfoils' or rng.random() < 0.4:
                at = {'on': 'kernel', 'nth': rng.randint(1, max(1, ref['stats']['kernel']))}
            elif rng.random() < 0.3:
                f, nth = F.spot(rng, world.reference(proj, lines=True)['cover'])
                at = {'on': 'line', 'path': F.glob_escape(f), 'nth': nth}
            elif rng.random() < 0.6:
                # about when this file is read
                at = {'on': 'op', 'path': f'p/{k}/{F.glob_escape(n)}', 'nth': rng.randint(1, 4)}
            else:
                at = {'on': 'op', 'nth': rng.randint(1, len(ref['trace']))}
            edits.append({'kind': k, 'file': n, 'new': new, 'at': at})
        return {'project': proj, 'edits': edits, 'cli': rng.random() < 0.2, 'knobs': F.knobs(rng)}

    def version(self, proj, e):
        out = json.loads(json.dumps(proj))
        if e['kind'] == 'settings':
            out['settings']['main'] = e['new']
        else:
            out[e['kind']][e['file']] = e['new']
        return out

    def execute(self, world, spec):
        proj, edits = spec['project'], spec['edits']
        refs = []
        for take in itertools.product([0, 1], repeat=len(edits)):
            v = proj
            for t, e in zip(take, edits):
                if t and e['new'] is not None:
                    v = self.version(v, e)
            refs.append((take, world.reference(v)))
        env = world.env()
        P.write_project(proj, env.path('p'))
        text = lambda e: None if e['new'] is None else e['new'] if isinstance(e['new'], str) else json.dumps(e['new'], indent=1)
        faults = [dict(e['at'], act='edit', put={f'p/{e["kind"]}/{e["file"]}': text(e)}) for e in edits]
        st = '@/p/settings/main.json'
        step = {'do': 'cli', 'argv': ['--run', st]} if spec['cli'] else {'do': 'run', 'settings': st}
        r = env.node([step], faults=faults, knobs=spec['knobs'])
        need_done(r, 'analysis', crash_ok=False)
        s = r['steps'][0]
        fired = [f for f in r['fired'] if f[0] == 'edit']
        return self.judge(spec, env, r, s, fired, refs)

    def judge(self, spec, env, r, s, fired, refs):
        proj, edits = spec['project'], spec['edits']
        late = {f[4] for f in fired if f[5] > 0}
        done = {f[4] for f in fired}
        rel = [f'p/{e["kind"]}/{e["file"]}' for e in edits]
        what = ', '.join(f'{x} {"removed" if e["new"] is None else "replaced"} {"after the computation began" if x in late else "during the set-up"}'
                         for x, e in zip(rel, edits) if x in done)
        key = {'key': digest([spec['project'], spec['edits'], sorted(done), sorted(late)]), 'nontrivial': bool(fired),
               'classes': [('late ' if x in late else 'early ') + e['kind'] + (' removed' if e['new'] is None else '') for x, e in zip(rel, edits) if x in done] or ['not reached']}
        if not s['ok']:
            if any(e['new'] is None and x in done and x not in late for x, e in zip(rel, edits)):
                return key           # what is needed was not there
            raise Violation('edit-fails', f'{what}: {s.get("exc")} {s.get("msg")}')
        tree = env.snap('p')
        res, plots = compare.sub(tree, '_results'), compare.norm_plots(compare.sub(tree, '_plots'))
        first = None
        for take, ref in refs:
            if any(t and (x not in done or x in late or e['new'] is None) for t, x, e in zip(take, rel, edits)):
                continue
            d = compare.diff_outputs(res, ref['results']) or compare.diff_outputs(plots, compare.norm_plots(ref['plots'])) or \
                (s['value'] is not None and compare.same_data(s['value'], ref['data']))
            if not d:
                return key
            first = first or d
        raise Violation('mixed-inputs', f'{what}: the outcome is that of no version of the inputs: e.g. {first}')


PROP = C22()
