"""C07: saving a model, state or settings file is all-or-nothing; what is saved loads back."""
import json
import os

from .. import compare, faults as F, monitors as M, project as P
from ..base import Prop, Violation, check_monitor, describe, digest, need_done

FILE = {'aircraft': 'aircraft/ac.json', 'state': 'state/st.json', 'settings': 'settings/main.json'}


def visible(kind, v):
    """What the user sees of a settings dictionary: no '_' keys (they are never saved)."""
    if kind != 'settings':
        return v
    return {k: (visible(kind, x) if isinstance(x, dict) else x) for k, x in v.items() if not k.startswith('_')}


def same(kind, a, b):
    a, b = visible(kind, a), visible(kind, b)
    if kind == 'settings':
        return None if a == b else f'{sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))} differ'
    if kind == 'state':
        return compare.same_dict(a['aero'], b['aero']) or (None if a['n'] == b['n'] else f'{a["n"]} states instead of {b["n"]}')
    if [w['uid'] for w in a['wings']] != [w['uid'] for w in b['wings']]:
        return 'wings differ'
    fa, fb = keys(a), keys(b)
    if fa != fb:
        return f'structure differs: {sorted(set(fa) ^ set(fb))[:3]}'
    return compare.same_values(a, b)


def plain(x, project):
    """x with file names relative to the project directory."""
    if isinstance(x, dict):
        return {k: plain(v, project) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v, project) for v in x]
    return x.replace('<root>' + project, '<project>') if isinstance(x, str) else x


def keys(x, p=''):
    out = []
    if isinstance(x, dict):
        for k in x:
            out += keys(x[k], p + '/' + k)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += keys(v, f'{p}[{i}]')
    else:
        out.append(p)
    return sorted(out)


class C07(Prop):
    id = 'C07'
    quick, thorough = 2000, 44000
    list_paths = [['faults'], ['switches'], ['savers', 0, 'pre']]
    rule = ('case = random project x aircraft, state or settings file x load, optional use in an analysis, optional edit, save (1-3 cycles) '
            'x a fault (error, torn write, full disk, cancellation, memory failure, crash at any operation or source line) or a concurrent '
            'loader or second saver under a seeded schedule; invariant checked at every file operation; non-trivial when a save began; '
            'distinct by (project, kind, edits, faults or schedule)')
    key_rule = 'distinct (project, saved object, fault or schedule) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        proj = P.gen_project(prng)
        kind = rng.choice(['aircraft', 'state', 'settings'])
        n = P.n_states(proj['state']['st.json'])

        def saver():
            pre = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                pre.append(rng.choice(['edit', 'edit', 'use', 'cycle', 'run'] if kind != 'aircraft' else ['edit', 'edit', 'use', 'cycle']))
            ed = {'aircraft': {'area': P.rnd(rng, 2, 9), 'panels': rng.choice([1, 4, 6]), 'uid': rng.choice(['ac', 'renamed' * rng.choice([1, 900])])},
                  'state': {'alpha': [P.rnd(rng, -3, 9) for _ in range(n)]},
                  'settings': {'vlm_autopanels_c': rng.randint(4, 9), 'vlm_autopanels_s': rng.randint(4, 9)}}[kind]
            return {'pre': pre, 'edit': ed}
        mode = rng.choice(['one', 'one', 'one', 'loader', 'two'])
        spec = {'project': proj, 'kind': kind, 'mode': mode, 'savers': [saver()], 'faults': [], 'switches': [], 'absent': rng.random() < 0.15,
                'knobs': F.knobs(rng), 'link': rng.random() < 0.1}
        if mode == 'two':
            # both start from whatever is on disk and set everything they change, so that only two results are possible
            spec['savers'] = [dict(saver(), pre=['edit']) for _ in range(2)]
        if kind == 'settings' or spec['absent']:
            spec['link'] = False         # a linked settings file means another project directory
        if not spec['link'] and rng.random() < 0.15:
            spec['hard'] = True
        if mode != 'one':
            spec['absent'] = False
            # most of the interesting part of a save is at the end of the saver's life
            from .c03 import switches
            spec['switches'] = switches(rng, 2, 120)
        if rng.random() < (0.8 if mode == 'one' else 0.25):
            if rng.random() < 0.45:
                f = {'on': 'line', 'nth': rng.choice([rng.randint(1, 40), rng.randint(1, 200)]), 'act': rng.choice(['kbd', 'memerr', 'crash'])}
            else:
                kinds = rng.choice([['write'], ['write'], ['open_w', 'open_x', 'open_rw'], ['close'], ['rename'], ['unlink'], ['fsync'], ['chmod', 'utime', 'stat']])
                if spec['link'] and 'stat' in kinds:
                    kinds = ['chmod', 'utime']       # a link that cannot be looked at cannot be seen to be one
                act = rng.choice(['errno', 'torn_err', 'crash', 'crash_after', 'torn_crash', 'kbd'])
                f = {'on': 'op', 'kinds': kinds, 'path': 'p/' + kind + '/*', 'nth': rng.choice([1, 1, 2, 3, 5]), 'act': act, 'errno': rng.choice([28, 5, 122]),
                     'frac': rng.choice([0.0, 0.2, 0.5, 0.9])}
                if act in ('errno', 'torn_err') and rng.random() < 0.3:
                    f['count'] = 10000
            spec['faults'] = [f]
        return spec

    def steps(self, spec, sv, faults):
        kind, st = spec['kind'], '@/p/settings/main.json'
        out = [{'do': 'load', 'kind': 'settings', 'settings': st}, {'do': 'load', 'kind': 'state', 'settings': st}]
        if kind == 'aircraft' or 'use' in sv['pre']:
            out.append({'do': 'load', 'kind': 'aircraft', 'settings': st})
        save = {'do': 'save', 'obj': kind, 'kind': kind, 'with': 'settings', 'settings': st}
        for p in sv['pre']:
            if p == 'edit':
                out.append({'do': 'edit', 'obj': kind, 'kind': kind, 'set': sv['edit']})
            elif p == 'use':
                out.append({'do': 'use'})
            elif p == 'run':
                out.append({'do': 'run', 'settings': st, 'as': True, 'data': False})
        if 'cycle' in sv['pre']:
            out += [dict(save, cycle=True), {'do': 'load', 'kind': kind, 'settings': st}]
        if spec['absent']:
            out.append({'do': 'vanish', 'file': 'p/' + FILE[kind]})
        out += [{'do': 'inspect', 'obj': kind, 'kind': kind, 'n': 0}]
        if faults:
            out.append({'do': 'faults', 'faults': faults})
        out += [save]
        if faults:
            out.append({'do': 'faults', 'faults': []})
        out += [{'do': 'inspect', 'obj': kind, 'kind': kind, 'n': 1}]
        return out

    def setup(self, world, spec):
        env = world.env()
        P.write_project(spec['project'], env.path('p'))
        f = FILE[spec['kind']]
        if spec.get('hard'):
            # the file is also in a backup
            os.makedirs(env.path('shared'))
            os.link(env.path('p', f), env.path('shared', 'backup.json'))
        if spec['link']:
            os.makedirs(env.path('shared'))
            os.rename(env.path('p', f), env.path('shared', 'file.json'))
            os.symlink('../../shared/file.json', env.path('p', f))
        return env

    def undisturbed(self, world, spec, i):
        def fn():
            env = self.setup(world, dict(spec, link=False, hard=False))
            r = env.node(self.steps(spec, spec['savers'][i], []))
            need_done(r, 'undisturbed save', crash_ok=False)
            bad = [s for s in r['steps'] if not s['ok']]
            if bad:
                raise Violation('save-fails', f'{spec["kind"]} after {spec["savers"][i]["pre"]}: {bad[0]["do"]}: {bad[0].get("exc")} {bad[0].get("msg")}')
            a, b = [s['value'] for s in r['steps'] if s['do'] == 'inspect']
            d = same(spec['kind'], b, a) or (None if spec['kind'] != 'settings' else (None if a == b else 'hidden settings changed'))
            if d:
                raise Violation('save-alters-object', f'{spec["kind"]}: {d}')
            data = M.real_content(env.path('p', FILE[spec['kind']]))
            r2 = env.node([{'do': 'load', 'kind': spec['kind'], 'settings': '@/p/settings/main.json'}])
            need_done(r2, 'load', crash_ok=False)
            s = r2['steps'][0]
            if not s['ok']:
                raise Violation('roundtrip', f'saved {spec["kind"]} does not load: {s.get("exc")} {s.get("msg")}')
            d = same(spec['kind'], s['value'], a)
            if d:
                raise Violation('roundtrip', f'saved {spec["kind"]} loads back differently: {d}')
            # a project is a directory that can be moved: what was saved means the same, and is as usable, from its new place
            r2 = env.node(self.uses(spec, '@/p'))
            os.makedirs(env.path('elsewhere'))
            os.rename(env.path('p'), env.path('elsewhere', 'q'))
            r3 = env.node(self.uses(spec, '@/elsewhere/q'))
            for r in (r2, r3):
                need_done(r, 'load and use', crash_ok=False)
            for x, y in zip(r2['steps'], r3['steps']):
                if x['ok'] and not y['ok']:
                    raise Violation('roundtrip-moved', f'saved {spec["kind"]}, moved project: {y["do"]}: {y.get("exc")} {y.get("msg")}')
            d = r2['steps'][0]['ok'] and r3['steps'][0]['ok'] and same(spec['kind'], plain(r3['steps'][0]['value'], '/elsewhere/q'), plain(r2['steps'][0]['value'], '/p'))
            if d:
                raise Violation('roundtrip-moved', f'saved {spec["kind"]} loads back differently from the moved project: {d}')
            env.close()
            return {'bytes': data, 'value': s['value']}
        return world.cached(['c07', spec['project'], spec['kind'], spec['savers'][i], spec['absent']], fn)

    def uses(self, spec, root):
        st = root + '/settings/main.json'
        out = [{'do': 'load', 'kind': spec['kind'], 'settings': st}]
        if spec['kind'] != 'settings' and not spec['absent']:
            out += [{'do': 'load', 'kind': k, 'settings': st} for k in ('settings', 'state', 'aircraft')] + [{'do': 'use'}]
        return out

    def execute(self, world, spec):
        kind, f = spec['kind'], FILE[spec['kind']]
        refs = [self.undisturbed(world, spec, i) for i in range(len(spec['savers']))]
        env = self.setup(world, spec)
        old = M.real_content(env.path('p', f))
        oldv = world.cached(['c07old', spec['project'], kind], lambda: env.node([{'do': 'load', 'kind': kind, 'settings': '@/p/settings/main.json'}])['steps'][0]['value'])
        okset = [old] + [r['bytes'] for r in refs]
        cyc = any('cycle' in s['pre'] for s in spec['savers'])
        if cyc:
            # intermediate saves of the cycles write the content saved before the edit took effect
            okset += [self.undisturbed(world, dict(spec, savers=[dict(s, pre=[p for p in s['pre'] if p != 'cycle'])], absent=False), 0)['bytes']
                      for s in spec['savers'] if 'cycle' in s['pre']]
        if spec['absent']:
            okset.append(None)

        def check(rel, data):
            if data in okset:
                return None
            return f'neither the previous nor the new content: {"absent" if data is None else str(len(data)) + " bytes, e.g. " + repr(data[:20])}'
        mon = [M.Watch(env.root, ['p/' + f], check, 'torn-file')]
        if spec['mode'] == 'one':
            r = env.node(self.steps(spec, spec['savers'][0], spec['faults']), knobs=spec['knobs'], monitors=mon,
                         lines=any(x['on'] == 'line' for x in spec['faults']))
            results = [r]
            need_done(r, 'save')
        else:
            nodes = [{'steps': self.steps(spec, spec['savers'][0], spec['faults'])}]
            if spec['mode'] == 'two':
                nodes.append({'steps': self.steps(spec, spec['savers'][1], [])})
            else:
                nodes.append({'steps': [{'do': 'load', 'kind': kind, 'settings': '@/p/settings/main.json'}] * 6})
            results, _, order = env.processes(nodes, spec['switches'], knobs=spec['knobs'], monitors=mon)
            for i, r in enumerate(results):
                need_done(r, 'save' if i == 0 else spec['mode'])
        for r in results:
            check_monitor(r)
        final = M.real_content(env.path('p', f))
        d = check(f, final)
        if d:
            raise Violation('torn-file', f'{f} after the end ({describe(results[0])}): {d}')
        fired = [x for r in results for x in r['fired'] if x[0] != 'clock_jump']
        for i, r in enumerate(results):
            for s in r['steps']:
                if s['do'] == 'save' and s['ok'] and spec['mode'] == 'one' and s is [x for x in r['steps'] if x['do'] == 'save'][-1] \
                        and (len([x for x in r['steps'] if x['do'] == 'save']) > 1 or not cyc) and final != refs[0]['bytes']:
                    raise Violation('save-lost', f'saving reports success, {f} does not hold the new content ({fired[:1]})')
                if s['do'] == 'load' and not s['ok']:
                    raise Violation('load-fails', f'loading while somebody saves: {s.get("exc")} {s.get("msg")}')
                if s['do'] == 'load' and spec['mode'] == 'loader' and i == 1:
                    if same(kind, s['value'], oldv) and all(same(kind, s['value'], x['value']) for x in refs) and not cyc:
                        raise Violation('load-mixture', f'a concurrent load sees neither the previous nor the new {kind}')
                if s['do'] in ('use', 'run', 'save') and not s['ok'] and not fired:
                    raise Violation('save-fails', f'{s["do"]}: {s.get("exc")} {s.get("msg")}')
            ins = [s['value'] for s in r['steps'] if s['do'] == 'inspect' and s['ok']]
            if len(ins) == 2 and (same(kind, ins[1], ins[0]) or kind == 'settings' and ins[0] != ins[1]):
                raise Violation('save-alters-object', f'{kind} object changed by (failed) saving: {same(kind, ins[1], ins[0])}')
            if r['status'] == 'done' and spec['faults'] and fired and i == 0:
                sv = [s for s in r['steps'] if s['do'] == 'save'][-1]
                if sv['ok'] and final != refs[0]['bytes'] and spec['mode'] == 'one':
                    raise Violation('save-lost', f'{fired[0]}: success reported')
        if spec['link'] and not os.path.islink(env.path('p', f)):
            raise Violation('link-replaced', f'{f} was a link to a shared file')
        if final is not None:
            r = env.node([{'do': 'load', 'kind': kind, 'settings': '@/p/settings/main.json'}])
            if r['status'] != 'done' or not r['steps'][0]['ok']:
                raise Violation('roundtrip', f'{f} does not load afterwards: {describe(r)}')
        return {'key': digest([spec['project'], kind, spec['savers'], spec['faults'] if fired else [], spec['switches']]), 'nontrivial': True,
                'classes': [kind, spec['mode']] + [x[0].split(':')[0] + '@' + x[1] for x in fired[:1]]}


PROP = C07()
