"""C02: an analysis does not depend on what the process did before."""
import json

from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, describe, digest, need_done, shrink_list, shrink_projects

BAD = ['no_state', 'bad_combo', 'bad_json', 'bad_aircraft', 'bad_key']


def spoil(rng, proj):
    """A project whose analysis fails with an error."""
    p = json.loads(json.dumps(proj))
    how = rng.choice(BAD)
    if p.get('cpacs'):
        if how in ('no_state', 'bad_combo'):
            p['settings']['main']['state'] = 'nothing.json'
        elif how == 'bad_key':
            p['settings']['main']['vlm_autopanels_c'] = 'many'
        elif how == 'bad_json':
            p['cpacs']['ac.xml']['devices'] = [{'uid': 'nosuch', 'deflection': 1, 'mirror': None}]
        else:
            p['cpacs']['ac.xml']['wings'][0]['segments'][0]['foil'] = 'nosuch'
        return p
    if how == 'no_state':
        p['state'] = {}
    elif how == 'bad_combo':
        a = p['state']['st.json']['aero']
        for k in ('density', 'altitude', 'mach'):
            a.pop(k, None)
    elif how == 'bad_json':
        p['aircraft']['ac.json'] = 'oops'
    elif how == 'bad_aircraft':
        p['aircraft']['ac.json']['wings'][0]['segments'][0]['vertices'] = {'a': [0, 0, 0]}
    else:
        p['settings']['main']['vlm_autopanels_c'] = 'many'
    return p


def tweak(rng, proj):
    """The same project with other digits in its numbers."""
    p = json.loads(json.dumps(proj))

    def other(v):
        s = list(repr(v))
        i = [k for k, c in enumerate(s) if c.isdigit() and c != '0' and 'e' not in s]
        if not i or isinstance(v, bool):
            return v
        k = i[-1]
        s[k] = str(int(s[k]) % 9 + 1)
        return type(v)(''.join(s))
    for st in p['state'].values():
        for k, v in st['aero'].items():
            if rng.random() < 0.5:
                st['aero'][k] = [other(x) for x in v] if isinstance(v, list) else other(v)
    for d in p.get('cpacs', {}).values():
        for m in d['maps'].values():
            m['angleOfAttack'] = [other(x) for x in m['angleOfAttack']]
    for ac in list(p['aircraft'].values()) + list(p.get('cpacs', {}).values()):
        for k in ('area', 'span', 'chord'):
            if k in ac['refs']:
                ac['refs'][k] = other(ac['refs'][k])
    for n, t in p['airfoils'].items():
        ls = t.splitlines()
        ls[4] = ls[4][:-1] + str(int(ls[4][-1]) % 9 + 1)
        p['airfoils'][n] = '\n'.join(ls) + '\n'
    for d in p['deformation'].values():
        for w in d.values():
            for row in w:
                row[5] = other(row[5])
    return p


class C02(Prop):
    id = 'C02'
    quick, thorough = 900, 20000
    per_project = 5
    rule = ('case = a history of 1-6 calls in one process (analyses of the same or other projects, also after the files were edited in '
            'place; loads, saves, edits, cleans, template creation; calls failing from injected file/kernel/solver/memory/plot faults '
            'or invalid input; cancellations at a random source line), followed by the target analysis; non-trivial when at least one '
            'earlier call did something; distinct by (projects, history)')
    key_rule = 'distinct (target project, call history) pairs'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.08 else 'off'
        target = P.any_project(prng, states=prng.choice([1, 2, 3]), plots=plots, small=True if plots == 'some' else None)
        others = [P.any_project(prng, states=prng.choice([1, 2])) for _ in range(2)]
        # another version of the target: same names, other values
        v = json.loads(json.dumps(target))
        ac, foils = P.gen_aircraft(prng, True)
        if v.get('cpacs'):
            w = C.gen(prng, states=prng.choice([1, 2]), state_from_cpacs=v['settings']['main']['state'] != 'st.json')
            v['cpacs'], v['state'] = w['cpacs'], w['state']
        else:
            v['state']['st.json'] = P.gen_states(prng)
        se = v['settings']['main']
        only = prng.random() < 0.3             # ... of the settings alone
        if only or prng.random() < 0.4:
            se['vlm_autopanels_c'], se['vlm_autopanels_s'] = prng.choice([1, 2, 3, 4]), prng.choice([2, 3, 4, 5])
            if prng.random() < 0.4:
                se['_do_normal_rotations'] = not se.get('_do_normal_rotations', True)
            if prng.random() < 0.3:
                se['_epsilon'] = prng.choice([1e-5, 1e-4])
        if only:
            v['state'], v['cpacs'] = json.loads(json.dumps([target['state'], target.get('cpacs', {})]))
            if not v['cpacs']:
                del v['cpacs']
        elif prng.random() < 0.6 and not v.get('cpacs'):
            v['aircraft']['ac.json'] = ac
            v['airfoils'].update({k: t for k, t in foils.items()})
            v['deformation'] = {}
            v['settings']['main'].pop('deformation', None)
        for k in list(v['airfoils']):
            if not only and k in target['airfoils'] and prng.random() < 0.5:
                v['airfoils'][k] = P.BLADE.format(name='profile', u1=.012, u2=.03, u3=.04, u4=.03, l1=-.01, l2=-.02, l3=-.03, l4=-.02)
        # the same files with some digits changed: same names, same sizes
        tw = tweak(prng, target)
        hist = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            hist.append(self.gen_call(rng, world, target, others, v, tw, tier))
        return {'target': target, 'hist': hist, 'rel': rng.choice([0, 0, 1, 2, 2]), 'mtime': rng.choice([None, None, None, 1.5e9]), 'knobs': F.knobs(rng)}

    def gen_call(self, rng, world, target, others, variant, tw, tier):
        k = rng.choice(['run', 'run', 'fail', 'fail', 'cancel', 'cancel', 'bad', 'objects', 'clean', 'template'])
        which = rng.choice(['target', 'target', 'variant', 'variant', 'tweak', 'o0', 'o1'])
        proj = {'target': target, 'variant': variant, 'tweak': tw, 'o0': others[0], 'o1': others[1]}[which]
        d = 'p' if which in ('target', 'variant', 'tweak') else 'q'
        c = {'call': k, 'dir': d, 'project': proj}
        if k in ('run', 'fail', 'cancel'):
            c['hold'] = rng.random() < 0.7
        if k == 'fail':
            on = rng.choice(['op', 'op', 'op', 'kernel', 'alloc', 'lapack', 'render'])
            if on == 'op':
                tr = world.reference(proj)['trace']
                f = F.op_fault(rng, tr, acts=('errno', 'torn_err', 'kbd'), exclude=['*log.txt'])
                if f:
                    f['path'] = d + f['path'][1:] if f['path'].startswith('p') else f['path']
            else:
                f = {'on': on, 'nth': rng.randint(1, 12 if on != 'lapack' else 2),
                     'act': {'kernel': 'runtime', 'alloc': 'memerr', 'lapack': 'memerr', 'render': 'runtime'}[on]}
            c['faults'] = [f] if f else []
        elif k == 'cancel':
            c['faults'] = [F.line_fault(rng, world.reference(proj, lines=True)['cover'], ['kbd', 'kbd', 'memerr'])]
        elif k == 'bad':
            c['project'] = spoil(rng, proj)
        elif k == 'objects':
            c['kind'] = rng.choice(['aircraft', 'state', 'settings'])
            c['save'] = rng.random() < 0.7
            c['edit'] = rng.random() < 0.4
        elif k == 'template':
            c['db'] = rng.choice([None, 'Boxwing', 'Optimale'])
        return c

    def steps(self, spec):
        out = []
        for i, c in enumerate(spec['hist']):
            st = f'@/{c["dir"]}/settings/main.json' if spec['rel'] < 2 else f'../../{c["dir"]}/settings/main.json'
            if c['call'] == 'template':
                out += [{'do': 'template', 'db': c.get('db')}]
                continue
            out.append({'do': 'put', 'dir': c['dir'], 'project': c['project'], 'mtime': spec.get('mtime')})
            if c.get('faults'):
                out.append({'do': 'faults', 'faults': c['faults']})
            if c['call'] in ('run', 'fail', 'cancel', 'bad'):
                out.append({'do': 'run', 'settings': st, 'hold': c.get('hold', False), 'data': False})
            elif c['call'] == 'clean':
                out.append({'do': 'clean', 'settings': st})
            elif c['call'] == 'objects':
                kd = c['kind']
                out.append({'do': 'cload' if c['project'].get('cpacs') and kd != 'settings' else 'load', 'kind': kd, 'settings': st, 'as': f'o{i}'})
                if c['edit']:
                    out.append({'do': 'edit', 'obj': f'o{i}', 'kind': kd,
                                'set': {'aircraft': {'area': 3.0, 'panels': 5}, 'state': {'alpha': 9.0}, 'settings': {'vlm_autopanels_c': 7}}[kd]})
                if c['save']:
                    out.append({'do': 'save', 'obj': f'o{i}', 'kind': kd, 'settings': st})
            if c.get('faults'):
                out.append({'do': 'faults', 'faults': []})
        out.append({'do': 'put', 'dir': 'p', 'project': spec['target'], 'mtime': spec.get('mtime')})
        if spec['rel'] == 2:
            # the process never changes its directory itself
            out.append({'do': 'run', 'settings': '../../p/settings/main.json'})
        elif spec['rel']:
            out.append({'do': 'chdir', 'dir': 'p'})
            out.append({'do': 'run', 'settings': 'settings/main.json'})
        else:
            out.append({'do': 'run', 'settings': '@/p/settings/main.json'})
        out.append({'do': 'held'})
        return out

    list_paths = [['hist']]
    project_paths = [['target']]

    def execute(self, world, spec):
        ref = world.reference(spec['target'])
        env = world.env()
        lines = any(f['on'] == 'line' for c in spec['hist'] for f in c.get('faults', ()))
        import os
        os.makedirs(env.path('w', 'x'))
        r = env.node(self.steps(spec), knobs=spec['knobs'], lines=lines, cwd='w/x')
        need_done(r, 'call history', crash_ok=False)
        *_, tgt, held = r['steps']
        calls = '+'.join(c['call'] for c in spec['hist'])
        if not tgt['ok']:
            raise Violation('history-dependence', f'after {calls} the analysis fails: {tgt.get("exc")} {tgt.get("msg")}')
        after = env.snap('p')
        for top in ('_results', '_plots'):
            got, want = compare.sub(after, top), ref['results' if top == '_results' else 'plots']
            if top == '_plots':
                got, want = compare.norm_plots(got), compare.norm_plots(want)
            d = compare.diff_outputs(got, want)
            if d:
                raise Violation('history-dependence', f'after {calls}: {top}: {d}')
        d = C.changed(ref['after'], after, spec['target'])
        if d:
            raise Violation('history-dependence', f'after {calls}: {d}')
        d = compare.same_data(tgt['value'], ref['data'])
        if d:
            raise Violation('history-dependence', f'after {calls}: {d}')
        if not held['ok']:
            raise Violation('result-altered', f'results held from earlier analyses cannot be read: {held.get("msg")}')
        if held['value']:
            raise Violation('result-altered', held['value'])
        return {'key': digest(spec), 'nontrivial': bool(spec['hist']), 'classes': sorted({c['call'] for c in spec['hist']})}


PROP = C02()
