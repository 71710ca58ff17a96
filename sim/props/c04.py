"""C04: an analysis never modifies what belongs to the user."""
import os

from .. import compare, cpacs as C, faults as F, monitors as M, project as P
from ..base import Prop, STD_DIRS, Violation, check_monitor, describe, digest, need_done, owned

FOREIGN = [
    ('notes.txt', 'remember the milk\n'), ('state/other.json', '{"aero": {"alpha": 1}}'), ('aircraft/old.json', '{}'),
    ('_results/readme.md', 'mine'), ('_results/other_000/global.json', '{"a": 1}'), ('_results/main2_000/panelwise.dat', '# x\n1\n'),
    ('_results/other_aeroperformance.json', '{}'), ('_plots/other_000/keep.png', 'png'), ('_plots/mine.txt', 'x'),
    ('scripts/post.py', 'print(1)\n'), ('airfoils/blade.user', 'user\n1 0\n0 0\n1 0\n'), ('deformation/user.json', '{}'),
    ('settings/unused.json', '{"aircraft": "x.json"}'), ('main_aeroperformance.json', 'old'), ('_results/main_notes.txt', 'mine'),
    ('_results/main/global.json', '1'), ('settings/main.json.bak', '{}'), ('state/st.json~', 'x'), ('aircraft/ac.json.tmp', 'precious'),
    ('_results/main2_012/global.json', '{"a": 2}'), ('_results/main_wing_007/matrix.dat', '# m\n1\n'), ('_results/main_000.bak/global.json', '{}'),
    ('_results/mainframe_003/global.json', '{"b": 2}'), ('_results/main_old/data.csv', '1,2\n'), ('_plots/main2_011/geo.png', 'png'),
    ('_results/xmain_000/global.json', '{}'), ('_results/Main_000/global.json', '{}'), ('deformation/empty.json', '{}'), ('state/st2.json', ''),
    ('airfoils/naca1.dat', 'old airfoil'), ('airfoils/fresh.tmp', 'x'), ('main_000/keep.txt', 'keep'), ('settings/log.txt', 'x'),
    ('pytornado/settings/template.json', '{}'), ('results/main_000/global.json', '{}'), ('log.txt.1', 'old log'),
]
OWN_OLD = [('_results/main_000/global.json', '{"stale": 1}'), ('_results/main_007/matrix.dat', '# stale\n'),
           ('_results/main_aeroperformance.json', '{"stale": []}'), ('log.txt', 'old log\n')]


def interruption(rng, world, proj, lines=True, extra=()):
    """One fault that may hit anywhere in the analysis."""
    k = rng.choice(['none', 'op', 'op', 'op', 'full', 'line', 'line', 'env'])
    if k == 'op':
        f = F.op_fault(rng, world.reference(proj)['trace'])
    elif k == 'full':
        f = F.disk_full(rng, world.reference(proj)['trace'])
    elif k == 'line' and lines:
        f = F.line_fault(rng, world.reference(proj, lines=True)['cover'], ['kbd', 'crash', 'memerr'])
    elif k == 'env':
        f = rng.choice([{'on': 'kernel', 'act': 'runtime'}, {'on': 'alloc', 'act': 'memerr'}, {'on': 'lapack', 'act': 'memerr'},
                        {'on': 'lapack', 'act': 'singular'}, {'on': 'render', 'act': 'runtime'}])
        f = dict(f, nth=rng.randint(1, 8))
    else:
        f = None
    return [f] if f else []


def unmapped(tree, proj):
    """The CPACS files of project p without the coefficients, which an analysis is to write."""
    out = {}
    for n, d in proj.get('cpacs', {}).items():
        v = tree.get('p/aircraft/' + n)
        if v is not None and v[0] == 'f' and C.parse(v[1]) is not None:
            v = ('f', C.strip(C.parse(v[1]), C.used_map(d))[1].encode())
        out['aircraft/' + n] = v
    return out


BREAKS = ['missing', 'empty', 'blank', '{}', '[]', 'null', 'cut', 'cut', 'bytes', 'twice', 'lists', 'nan', 'dir']


def inputs(proj):
    out = ['p/settings/main.json']
    for kind in ('aircraft', 'state', 'deformation', 'airfoils'):
        out += [f'p/{kind}/{n}' for n in sorted(proj.get(kind, {})) if not n.startswith('.')] * (3 if kind == 'deformation' else 1)
    return out + ['p/aircraft/' + n for n in sorted(proj.get('cpacs', {}))]


def break_input(path, how):
    """The user has left an input file in a state no analysis can use."""
    if not os.path.isfile(path):
        return False
    with open(path, 'rb') as fp:
        old = fp.read()
    if how in ('missing', 'dir'):
        os.remove(path)
        if how == 'dir':
            os.mkdir(path)
        return True
    new = {'empty': b'', 'blank': b' \n', '{}': b'{}', '[]': b'[]', 'null': b'null', 'cut': old[:len(old) // 2], 'bytes': b'\xff\xfe\x00' + old,
           'twice': old + old, 'lists': old.replace(b'{', b'[').replace(b'}', b']'), 'nan': old.replace(b'1', b'NaN')}[how]
    with open(path, 'wb') as fp:
        fp.write(new)
    return True


class C04(Prop):
    id = 'C04'
    quick, thorough = 1300, 26000
    rule = ('case = random project with foreign files, results of other settings and stale own results x 1-3 consecutive analyses by API '
            'or command line x one fault each (any file operation, full disk, cancellation, memory failure or crash at any operation or '
            'source line, kernel/solver/plot failure), some with an input file that is missing, cut off or garbage; invariant checked at every file operation and on the final tree; non-trivial when '
            'an analysis got as far as changing a file; distinct by (project, foreign files, fault positions)')
    key_rule = 'distinct (project, surroundings, fault placement) cases'
    list_paths = [['runs'], ['foreign']]

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        plots = 'some' if prng.random() < 0.12 else 'off'
        proj = P.any_project(prng, plots=plots, small=True if plots == 'some' else None)
        foreign = [list(x) for x in FOREIGN if rng.random() < 0.4]
        old = [list(x) for x in OWN_OLD if rng.random() < 0.3]
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            runs.append({'faults': interruption(rng, world, proj), 'cli': rng.random() < 0.25})
        links = []
        if rng.random() < 0.35:
            links = [x for x in inputs(proj) if x.startswith(('p/aircraft/', 'p/state/', 'p/deformation/', 'p/airfoils/')) and '/../' not in x and x.count('/') == 2
                     and not x.endswith('.xml')]
            links = sorted(set(links))
            rng.shuffle(links)
            links = links[:rng.choice([1, 1, 2, 3])]
        return {'project': proj, 'foreign': foreign, 'old': old, 'runs': runs, 'layout': rng.choice(['settings', 'settings', 'settings', 'flat']),
                'link': links, 'broken': [rng.choice(inputs(proj)), rng.choice(BREAKS)] if rng.random() < 0.22 else None, 'knobs': F.knobs(rng)}

    def execute(self, world, spec):
        env = world.env()
        proj = dict(spec['project'], foreign=dict([tuple(x) for x in spec['foreign'] + spec['old']]))
        P.write_project(proj, env.path('p'))
        sett = '@/p/settings/main.json'
        if spec['layout'] == 'flat':
            os.rename(env.path('p', 'settings', 'main.json'), env.path('p', 'main.json'))
            sett = '@/p/main.json'
        os.makedirs(env.path('other'))
        with open(env.path('other', 'ac.json'), 'w') as fp:
            fp.write('somebody else')
        if spec['link']:
            # inputs live elsewhere and are linked into the project
            os.symlink('../../other', env.path('p', 'state', 'linked'))
        for i, rel in enumerate(spec['link'] or ()):
            if not os.path.isfile(env.path(*rel.split('/'))):
                continue
            os.rename(env.path(*rel.split('/')), env.path('other', f'in{i}'))
            if i % 3 == 2:
                os.link(env.path('other', f'in{i}'), env.path(*rel.split('/')))     # two names of one file
            else:
                os.symlink(env.path('other', f'in{i}') if i % 2 else '../../other/' + f'in{i}', env.path(*rel.split('/')))
        if spec['broken']:
            break_input(env.path(*spec['broken'][0].replace('settings/main.json', sett[4:]).split('/')), spec['broken'][1])
        mine, conv = owned('main'), C.owned(spec['project'])

        def own(rel):
            return mine(rel) or conv(rel)
        before = env.snap()

        def ok(rel, kind):
            return own(rel) or (kind == 'mkdir' and rel in STD_DIRS) or (kind in ('open_a',) and rel == 'log.txt')
        wrote = 0
        for i, run in enumerate(spec['runs']):
            step = {'do': 'cli', 'argv': ['--run', sett]} if run['cli'] else {'do': 'run', 'settings': sett, 'data': False}
            r = env.node([step], faults=run['faults'], knobs=spec['knobs'], monitors=[M.allowed('p', ok)])
            need_done(r, f'analysis {i}')
            check_monitor(r)
            if r.get('outside'):
                ev, path = r['outside'][0]
                raise Violation('touched-outside', f'{ev} on {path.replace(env.root, "<root>")} outside the project')
            wrote += sum(1 for _, k, _ in r['trace'] if k in M.MUTATING)
            after = env.snap()
            for rel, v in before.items():
                if rel.startswith('p/') and own(rel[2:]):
                    continue
                if after.get(rel) != v:
                    raise Violation('touched-user-data', f'{rel} {"changed" if rel in after else "vanished"} by analysis {i} ({describe(r)})')
            e = C.changed(unmapped(before, spec['project']), unmapped(after, spec['project']), spec['project'])
            if e:
                raise Violation('touched-user-data', f'{e} by analysis {i} ({describe(r)})')
            for rel in after:
                if rel not in before and not (rel.startswith('p/') and (own(rel[2:]) or rel[2:] in STD_DIRS)):
                    raise Violation('touched-user-data', f'{rel} was created by analysis {i} ({describe(r)})')
        return {'key': digest([spec['project'], spec['foreign'], spec['old'], [x['faults'] for x in spec['runs']]]), 'nontrivial': wrote > 0,
                'classes': ([spec['broken'][1] + ' input'] if spec['broken'] else []) + sorted({f['act'] + '@' + f['on'] for x in spec['runs'] for f in x['faults']})}


PROP = C04()
