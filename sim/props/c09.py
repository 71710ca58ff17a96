"""C09: cleaning removes exactly the generated results and plots."""
import os
import shutil

from .. import compare, cpacs as C, faults as F, monitors as M, project as P
from ..base import Prop, STD_DIRS, Violation, check_monitor, describe, digest, need_done
from .c04 import FOREIGN

# (link below the project, target seen from there, kind)
LINKS = [('_results/main_000/airfoils', '../../airfoils'), ('_results/latest', 'main_000'), ('_results/outside', '../../outside'),
         ('_plots/outside', '../../outside/dir'), ('_plots/main_000/model.json', '../../aircraft/ac.json'), ('_results/loop', '.'),
         ('_results/broken', 'nowhere'), ('_plots/up', '..'), ('_results/main_000/settings', '../../settings'), ('_plots/abs', '@outside/dir'),
         ('_results/main_000/file', '../../../outside/precious.txt')]
EXTRA = ['_results/main_000/sub/dir/x.txt', '_results/main_001/global.json', '_results/.hidden', '_plots/main_000/a b.png', '_plots/main_004/x/y/z',
         '_results/other_000/global.json', '_results/main_aeroperformance.json', '_plots/-rf', '_results/é.txt', '_results/main_000/*']
SIMILAR = ['results/main_000/global.json', '_results_old/main_000/x', '_plots.bak', '__results/x', 'plots/x.png', 'settings/_results/x', '_resultsX']


class C09(Prop):
    id = 'C09'
    quick, thorough = 2200, 50000
    list_paths = [['cleans'], ['links'], ['extra'], ['foreign'], ['faults']]
    rule = ('case = project with results and plots of an analysis, debris, links pointing outside the removed directories, similar names x '
            '1-3 cleans (API, --clean-only, --clean with analysis) each with a fault (any file operation, one or several failing removals, '
            'cancellation or crash at any operation or source line) and a final clean without fault; oracle: everything else unchanged at '
            'every operation, success if and only if both directories are gone; non-trivial when something was there to remove; distinct by '
            '(content, links, faults)')
    key_rule = 'distinct (project content, links, fault placement) cases'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        proj = P.any_project(prng, 0.2, plots='some' if prng.random() < 0.1 else 'off', small=True)
        spec = {'project': proj, 'results': rng.random() < 0.8, 'links': [list(x) for x in LINKS if rng.random() < 0.25], 'extra': [x for x in EXTRA if rng.random() < 0.35],
                'foreign': [list(x) for x in FOREIGN if rng.random() < 0.3 and not x[0].startswith('_')] + [[x, 'similar'] for x in SIMILAR if rng.random() < 0.3],
                'layout': rng.choice(['settings', 'settings', 'flat']), 'knobs': F.knobs(rng), 'cleans': [], 'final': rng.choice(['api', 'cli', 'cli', 'clean+run'])}
        if rng.random() < 0.1:
            # the user keeps the results on another disk
            spec['toplink'] = rng.choice([{'_results': '../outside'}, {'_plots': '../outside/dir'}, {'_results': '../outside/dir', '_plots': '../outside'}, {'_results': 'airfoils'}])
            spec['final'] = rng.choice(['api', 'cli'])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(['none', 'rm', 'rm', 'rm', 'rm', 'list', 'load', 'line', 'line'])
            f = []
            if k == 'rm':
                kind = rng.choice(['unlink', 'rmdir', 'unlink'])
                act = rng.choice(['errno', 'errno', 'errno', 'crash', 'crash_after', 'kbd'])
                f = [{'on': 'op', 'kinds': [kind], 'path': 'p/_*', 'nth': rng.choice([1, 1, 2, 3, 4, 6, 9]), 'act': act, 'errno': F.err_for(rng, kind)}]
                if act == 'errno':
                    f[0]['count'] = rng.choice([1, 1, 2, 1000])
            elif k == 'list':
                f = [{'on': 'op', 'kinds': [rng.choice(['listdir', 'stat', 'listdir'])], 'path': 'p/_*', 'nth': rng.randint(1, 12), 'act': rng.choice(['errno', 'errno', 'crash', 'kbd']),
                      'errno': rng.choice([5, 13, 116]), 'count': rng.choice([1, 1, 3, 1000])}]
                if f[0]['kinds'] == ['stat']:
                    f[0]['path'] = 'p/_*/*'     # not of the two directories themselves: os.path.exists() and the like hide such a failure
            elif k == 'load':
                f = [{'on': 'op', 'kinds': [rng.choice(['open_r', 'read', 'stat', 'mkdir'])], 'nth': rng.randint(1, 8), 'act': rng.choice(['errno', 'crash']), 'errno': rng.choice([5, 13, 28])}]
            elif k == 'line':
                f = [{'on': 'line', 'nth': rng.randint(1, 130), 'act': rng.choice(['kbd', 'crash', 'memerr'])}]
                if rng.random() < 0.4:
                    f[0].update(path=rng.choice(['*:Settings.clean', '*:clean_project_dir', '*:main', '*:Settings.*']), nth=rng.randint(1, 10))
            spec['cleans'].append({'how': rng.choice(['api', 'api', 'cli', 'cli', 'twice']), 'faults': f})
        return spec

    def steps(self, how, st):
        return {'api': [{'do': 'clean', 'settings': st}], 'twice': [{'do': 'clean', 'settings': st}, {'do': 'clean', 'settings': st}],
                'cli': [{'do': 'cli', 'argv': ['--run', st, '--clean-only']}], 'clean+run': [{'do': 'cli', 'argv': ['--run', st, '--clean']}]}[how]

    def execute(self, world, spec):
        env = world.env()
        proj = spec['project']
        P.write_project(dict(proj, foreign=dict([tuple(x) for x in spec['foreign']])), env.path('p'))
        if spec['results'] and proj.get('cpacs'):
            # the airfoil files an earlier analysis took from the CPACS file
            for rel, v in world.reference(proj)['after'].items():
                if rel.startswith('airfoils/') and v[0] == 'f':
                    os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
                    with open(env.path('p', rel), 'wb') as fp:
                        fp.write(v[1])
        if spec['results']:
            ref = world.reference(proj)
            for top in ('results', 'plots'):
                for rel in sorted(ref[top]):
                    p, v = env.path('p', '_' + top, rel), ref[top][rel]
                    if v[0] == 'd':
                        os.makedirs(p, exist_ok=True)
                    else:
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, 'wb') as fp:
                            fp.write(v[1])
        os.makedirs(env.path('outside', 'dir', 'deep'))
        for rel in ('outside/precious.txt', 'outside/dir/a.txt', 'outside/dir/deep/b.txt'):
            with open(env.path(rel), 'w') as fp:
                fp.write('precious')
        for rel in spec['extra']:
            os.makedirs(os.path.dirname(env.path('p', rel)), exist_ok=True)
            with open(env.path('p', rel), 'w') as fp:
                fp.write('generated')
        os.makedirs(env.path('p', 'airfoils'), exist_ok=True)
        for rel, target in spec['links']:
            os.makedirs(os.path.dirname(env.path('p', rel)), exist_ok=True)
            os.symlink(target.replace('@', env.root + '/'), env.path('p', rel))
        for top, target in spec.get('toplink', {}).items():
            if os.path.exists(env.path('p', top)):
                shutil.rmtree(env.path('p', top))
            os.symlink(target, env.path('p', top))
        st = '@/p/settings/main.json'
        if spec['layout'] == 'flat':
            os.rename(env.path('p', 'settings', 'main.json'), env.path('p', 'main.json'))
            st = '@/p/main.json'
        before = env.snap()
        there = any(k.startswith(('p/_results/', 'p/_plots/')) for k in before)

        conv = C.owned(proj)

        def gen(rel):
            return rel in ('_results', '_plots') or rel.startswith(('_results/', '_plots/'))

        def ok(rel, kind):
            return gen(rel) or kind == 'mkdir' and (rel in STD_DIRS or bool(spec.get('toplink'))) or running and (rel == 'log.txt' or conv(rel))

        def check(what):
            after = env.snap()
            for rel, v in before.items():
                if rel.startswith('p/') and gen(rel[2:]) or running and (rel == 'p/log.txt' or conv(rel[2:])):
                    continue
                if after.get(rel) != v:
                    raise Violation('touched-user-data', f'{rel} {"changed" if rel in after else "vanished"} by {what}')
            for rel in after:
                if rel not in before and not spec.get('toplink') and not (rel.startswith('p/') and (gen(rel[2:]) or rel[2:] in STD_DIRS or running and (rel == 'p/log.txt' or conv(rel[2:])))):
                    raise Violation('touched-user-data', f'{rel} was created by {what}')
            return [r for r in after if r.startswith('p/') and gen(r[2:])]
        running = False
        hits = []
        for i, c in enumerate(spec['cleans']):
            r = env.node(self.steps(c['how'], st), faults=c['faults'], knobs=spec['knobs'], monitors=[M.allowed('p', ok)])
            need_done(r, f'clean {i}')
            check_monitor(r)
            if r.get('outside'):
                raise Violation('touched-user-data', f'{r["outside"][0]} outside the project')
            left = check(f'clean {i} ({describe(r)})')
            fired = [f for f in r['fired'] if f[0] != 'clock_jump']
            hits += [f[:4] for f in fired]
            if r['status'] == 'done':
                if r['steps'][-1]['ok'] and left:
                    raise Violation('not-removed', f'clean reports success but {left[0]} is still there ({fired[:1]})')
                if not fired and not r['steps'][-1]['ok'] and not spec.get('toplink'):
                    raise Violation('clean-fails', f'cleaning without any fault: {describe(r)}')
        how = spec['final']
        running = how == 'clean+run'
        r = env.node(self.steps(how, st), knobs={k: v for k, v in spec['knobs'].items() if k != 'jumps'}, monitors=[M.allowed('p', ok)])
        need_done(r, 'final clean', crash_ok=False)
        check_monitor(r)
        if not r['steps'][0]['ok'] and not spec.get('toplink'):
            raise Violation('clean-fails', f'after {hits}, cleaning without any fault: {describe(r)}')
        left = check('the final clean')
        if running:
            ref = world.reference(proj)
            after = env.snap('p')
            d = compare.diff_outputs(compare.sub(after, '_results'), ref['results']) or \
                compare.diff_outputs(compare.norm_plots(compare.sub(after, '_plots')), compare.norm_plots(ref['plots']))
            d = d or C.changed(ref['after'], after, proj)
            if d:
                raise Violation('not-removed', f'results and plots after --clean are not those of an undisturbed analysis: {d}')
        elif left and r['steps'][0]['ok']:
            raise Violation('not-removed', f'final clean reports success but {left[0]} is still there')
        return {'key': digest([proj, spec['links'], spec['extra'], hits, [c['how'] for c in spec['cleans']], how]), 'nontrivial': there,
                'classes': [how] + [h[0].split(':')[0] + '@' + h[1] + ' ' + h[2] for h in hits[:1]]}


PROP = C09()
