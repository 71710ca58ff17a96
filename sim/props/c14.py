"""C14: an analysis is a function of its project files and settings."""
import json
import os

from .. import compare, cpacs as C, faults as F, project as P
from ..base import Prop, Violation, describe, digest, need_done

WHERE = ['p', 'p', 'project dir', 'äöü/p', 'a/b/c/d/e/f', 'settings', 'settings/settings', '_results', 'p.json', 'aircraft/main', 'p/%(x)s', '-p', 'P' * 180, 'p $HOME', '~/p', "it's;#&"]
ENV = [{}, {}, {'HOME': '/nonexistent'}, {'TMPDIR': '/nonexistent', 'USER': 'somebody'}, {'TZ': 'Asia/Kathmandu', 'LANG': 'de_DE.UTF-8', 'COLUMNS': '20'},
       {'PYTHONHASHSEED': '77', 'DEBUG': '1', 'VERBOSE': '1', 'OMP_NUM_THREADS': '3'}]


def key_order(got, want):
    """The same keys in the same order (numbers are compared elsewhere)."""
    for rel in sorted(want):
        if rel.endswith('.json') and want[rel][0] == 'f':
            a, b = [json.loads(x[rel][1], object_pairs_hook=lambda p: [k for k, _ in p] + [v for _, v in p if isinstance(v, list)]) for x in (want, got)]
            if names(a) != names(b):
                return f'{rel}: order of the entries: {names(b)[:6]} instead of {names(a)[:6]}'
    return None


def names(x):
    return [x] if isinstance(x, str) else [n for v in x for n in names(v)] if isinstance(x, list) else []


class C14(Prop):
    id = 'C14'
    quick, thorough = 1200, 24000
    list_paths = [['faults'], ['vary']]
    rule = ('case = random native or CPACS project x several of: clock start, tick, jumps, process id, random state, environment, collector thresholds, '
            'hash seed (reference from another interpreter), current directory, project location, spelling of the settings path, symbolic link, '
            'directory order, buffer size, short reads/writes, memory contents, file times, verbosity, command line or function, caller thread, machine, link to the settings file; oracle: '
            'the same project in a plain environment; distinct by (project, environment); every case is non-trivial')
    key_rule = 'distinct (project, environment) pairs'

    def generate(self, world, vseed, seed, tier):
        prng, rng = self.rngs(vseed, seed)
        if prng.random() < 0.2:
            proj = C.gen(prng, plots='some' if prng.random() < 0.1 else 'off')
        else:
            plots = 'some' if prng.random() < 0.15 else 'off'
            proj = P.gen_project(prng, plots=plots, small=True if plots == 'some' else None)
        vary = rng.sample(['clock', 'pid', 'rng', 'env', 'gc', 'cwd', 'where', 'spelling', 'link', 'dirorder', 'bufsize', 'short', 'poison', 'mtime',
                           'verbosity', 'thread', 'extra', 'decoy', 'host', 'filelink'], rng.choice([1, 2, 3, 5, 8]))
        o = {'where': rng.choice(WHERE), 'cwd': rng.choice(['', 'proj', 'proj/settings', 'proj/_results', 'else', 'proj/state']),
             'spell': rng.choice(['rel', 'rel', 'dots', 'slashes', 'abs']), 'verb': rng.choice(['quiet', 'verbose', 'debug', 'cli', 'cli-q', 'cli-d']),
             'mtime': rng.choice([0, 1, 4102444800, 1e9 + 0.5]), 'short': F.short_io(rng),
             'knobs': {'clock': rng.choice([0.0, 86399.999, 951782399.5, 4102444800.0, 1e9]), 'tick': rng.choice([0.0, 1e-6, 0.5, 3600.0]),
                       'jumps': {str(rng.randint(1, 80)): rng.choice([-3600.0, -1e6, 1e6, 86400.0]) for _ in range(rng.randint(1, 3))}},
             'pid': rng.choice([1, 2, 99999, 4194304]), 'rng': rng.randint(1, 1 << 30), 'env': rng.choice(ENV), 'gc': rng.choice([[1, 1, 1], [0], [50, 2, 2]]),
             'host': {'cpus': rng.choice([1, 2, 64]), 'name': rng.choice(['', 'node07', 'HPC-login']), 'umask': rng.choice([0, 0o077, 0o027]),
                      'argv': rng.choice([[''], ['-c', 'x'], ['script.py', '--debug', '--clean'], ['pytest']]), 'recursion': rng.choice([400, 1000, 5000])},
             'dirorder': rng.choice([1, 2, 3, 5, 8]), 'bufsize': rng.choice([16, 64, 256, 1024, 65536]), 'poison': rng.randint(0, 3),
             'extra': rng.choice([['settings/zz.json~', 'aircraft/ac.json.bak'], ['README', 'airfoils/.hidden'], ['state/st2.json', 'aircraft/AC.json', 'deformation/zz.json']])}
        if o['where'].endswith('settings'):
            # such a project would be taken for the settings directory of its parent
            o['where'] += '/p'
        return {'project': proj, 'vary': sorted(vary), 'opt': o, 'faults': []}

    def peer_reference(self, world, job):
        return self.plain(world, job['project'])

    def plain(self, world, proj):
        env = world.env()
        try:
            C.write(dict(proj, cpacs=proj.get('cpacs', {})), env.path('p'))
            r = env.node([{'do': 'run', 'settings': env.path('p', 'settings', 'main.json')}])
            if r['status'] != 'done' or not r['steps'][0]['ok']:
                raise Violation('undisturbed-failure', describe(r))
            t = env.snap('p')
            return {'results': compare.sub(t, '_results'), 'plots': compare.sub(t, '_plots'), 'data': r['steps'][0]['value'],
                    'tree': {k: v for k, v in t.items() if not k.startswith(('_results', '_plots', 'log.txt'))}}
        finally:
            env.close()

    def execute(self, world, spec):
        proj = spec['project']

        def ask():
            r = world.peer().ask({'prop': 'C14', 'project': proj})
            if isinstance(r, tuple) and r and r[0] == 'violation':
                raise Violation(r[1], r[2])
            return r
        ref = world.cached(['c14', proj], ask)
        o, vary = spec['opt'], set(spec['vary'])
        env = world.env()
        where = o['where'] if 'where' in vary else 'p'
        root = env.path(where)
        C.write(dict(proj, cpacs=proj.get('cpacs', {})), root)
        os.makedirs(env.path('else'), exist_ok=True)
        extra = {}
        if 'extra' in vary:
            for f in o['extra']:
                os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
                with open(os.path.join(root, f), 'wb') as fp:
                    fp.write(b'{"not": "mine"')
                extra[f] = True
        base = where
        if 'link' in vary:
            os.symlink(root, env.path('else', 'link'))
            base = 'else/link'
        cwd = ''
        if 'cwd' in vary:
            cwd = {'': '', 'else': 'else'}.get(o['cwd'], base + o['cwd'][4:])
            os.makedirs(env.path(cwd), exist_ok=True)
        st = env.path(base, 'settings', 'main.json')
        if 'spelling' in vary or 'cwd' in vary:
            real = os.path.realpath(env.path(cwd))
            rel = os.path.relpath(st, real) if 'link' not in vary else os.path.relpath(os.path.realpath(st), real)
            st = {'rel': rel if not rel.startswith('-') else './' + rel, 'dots': os.path.join(os.path.dirname(rel), '..', 'settings', '.', 'main.json'),
                  'slashes': st.replace('/settings/', '//settings///'), 'abs': st}[o['spell']]
            if st.startswith('-'):
                st = './' + st
        if 'mtime' in vary:
            for b, _, fs in os.walk(root):
                for f in fs:
                    os.utime(os.path.join(b, f), (o['mtime'], o['mtime']))
        if 'filelink' in vary:
            # started through a short cut to the settings file
            os.makedirs(env.path('short', 'cuts'))
            os.symlink(os.path.realpath(env.path(base, 'settings', 'main.json')), env.path('short', 'cuts', o.get('cut', 'go.json')))
            st = env.path('short', 'cuts', o.get('cut', 'go.json'))
        knobs = {}
        if 'clock' in vary:
            knobs.update(o['knobs'])
        for k in ('pid', 'rng', 'env', 'gc', 'host', 'dirorder', 'bufsize', 'poison'):
            if k in vary:
                knobs[k] = o[k]
        faults = [o['short']] if 'short' in vary else []
        if 'decoy' in vary:
            # files in the current directory that look like what the project refers to
            for f in ['NACA0000', 'NACA2412', 'NACA4415', 'ac.json', 'st.json', 'def.json', 'main.json', 'settings/main.json', 'aircraft/ac.json'] + \
                    [os.path.normpath('airfoils/' + n) for n in proj.get('airfoils', {})]:
                q = env.path(cwd, f)
                if not os.path.lexists(q) and not os.path.realpath(q).startswith(os.path.realpath(root) + '/'):
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, 'w') as fp:
                        fp.write(P.BLADE.format(name='decoy', u1=.012, u2=.03, u3=.04, u4=.03, l1=-.01, l2=-.02, l3=-.03, l4=-.02))
        step = {'do': 'run', 'settings': st}
        if 'verbosity' in vary:
            v = o['verb']
            if v.startswith('cli'):
                step = {'do': 'cli', 'argv': ['--run', st] + {'cli': [], 'cli-q': ['--quiet'], 'cli-d': ['--debug']}[v]}
            else:
                step['flags'] = {v: True}
        if 'thread' in vary and not ref['plots']:
            r = env.threads([{'steps': [step], 'faults': faults}], knobs=knobs, cwd=cwd)
            need_done(r, 'analysis', crash_ok=False)
            s = r['threads'][0][0]
        else:
            r = env.node([step], faults=faults, knobs=knobs, cwd=cwd)
            need_done(r, 'analysis', crash_ok=False)
            s = r['steps'][0]
        what = f'with {", ".join(sorted(vary))}: '
        if not s['ok']:
            raise Violation('environment-failure', f'{what}{s["do"]} of {st!r} in {cwd!r}: {s.get("exc")} {s.get("msg", "")}')
        t = env.snap(where)
        d = compare.diff_outputs(compare.sub(t, '_results'), ref['results']) or \
            compare.diff_outputs(compare.norm_plots(compare.sub(t, '_plots')), compare.norm_plots(ref['plots']))
        d = d or key_order(compare.sub(t, '_results'), ref['results'])
        if d:
            raise Violation('environment-difference', what + d)
        if s.get('value') is not None:
            fix = lambda x, w: dict(x, settings=json.loads(json.dumps(x['settings']).replace(json.dumps('<root>/' + w)[1:-1], '<project>')))
            d = compare.same_data(fix(s['value'], where), fix(ref['data'], 'p'))
            if d:
                raise Violation('environment-difference', f'{what}returned data: {d}')
        for k, v in ref['tree'].items():
            if k.endswith('.xml'):
                m = proj['cpacs']['ac.xml']
                old = C.to_xml(m)
                if v[1] == old and t.get(k) != v:
                    raise Violation('environment-difference', f'{what}{k} differs')
                if v[1] != old:
                    if k not in t:
                        raise Violation('environment-difference', f'{what}{k} is gone')
                    a, b = C.parse(v[1]), C.parse(t[k][1])
                    if b is None or C.strip(a, C.used_map(m)) != C.strip(b, C.used_map(m)):
                        raise Violation('environment-difference', f'{what}{k} differs')
                    a, b = C.order(v[1]), C.order(t[k][1])
                    if a != b:
                        raise Violation('environment-difference', f'{what}{k}: the order of the elements differs: {b} instead of {a}')
            elif t.get(k) != v:
                raise Violation('environment-difference', f'{what}{k} differs')
        more = {k for k in t if not k.startswith(('_results', '_plots', 'log.txt'))} - set(ref['tree']) - set(extra)
        if more:
            raise Violation('environment-difference', f'{what}unexpected {sorted(more)[0]}')
        return {'key': digest([proj, {k: o.get(k) for k in sorted(vary)}]), 'nontrivial': True, 'classes': sorted(vary) + (['cpacs'] if proj.get('cpacs') else [])}


PROP = C14()
