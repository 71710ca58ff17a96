"""Random but always valid pytornado projects (plain dicts; nothing of the code under test is used)."""
import json
import os

BLADE = """{name}
1.000000 0.001
0.900000 {u1}
0.700000 {u2}
0.400000 {u3}
0.100000 {u4}
0.000000 0.000000
0.100000 {l4}
0.400000 {l3}
0.700000 {l2}
0.900000 {l1}
1.000000 -0.001
"""

SAVE_KEYS = ('global', 'panelwise', 'aeroperformance', 'matrix_system')


def rnd(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


SIGNED = ('alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')


def gen_states(rng, n=None, repeat=None):
    if n is None:
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    combo = rng.choice(['airspeed+density', 'airspeed+density', 'airspeed+altitude', 'mach+altitude'])
    aero = {}
    if 'airspeed' in combo:
        aero['airspeed'] = [rnd(rng, 20, 120, 1) for _ in range(n)]
    if 'mach' in combo:
        aero['mach'] = [rnd(rng, 0.1, 0.4) for _ in range(n)]
    if 'density' in combo:
        aero['density'] = [rnd(rng, 0.6, 1.3) for _ in range(n)]
    if 'altitude' in combo:
        aero['altitude'] = [rng.choice([0, 500, 2500, 8000, 11000, rng.randint(0, 12000), rnd(rng, 0, 12000, 1)]) for _ in range(n)]
    aero['alpha'] = [rnd(rng, -5, 12, 2) for _ in range(n)]
    aero['beta'] = [rng.choice([0, rnd(rng, -6, 6, 2)]) for _ in range(n)]
    for r in 'PQR':
        aero['rate_' + r] = [rng.choice([0, 0, rnd(rng, -0.4, 0.4)]) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:
        # a sweep: the states share all but a few parameters
        vary = rng.sample(sorted(aero), rng.choice([1, 1, 1, 2, 3]))
        for k in aero:
            if k not in vary:
                aero[k] = [aero[k][0]] * n
    if repeat is None:
        repeat = n > 1 and rng.random() < 0.3
    if repeat and n > 1:
        i, j = rng.sample(range(n), 2)
        for k in aero:
            aero[k][j] = aero[k][i]
    elif n > 1 and rng.random() < 0.35:
        # ... or one which is nearly, or the mirror image of, or a permutation of another
        i, j = rng.sample(range(n), 2)
        for k in aero:
            aero[k][j] = aero[k][i]
        for k in rng.sample(sorted(aero), rng.choice([1, 1, 2])):
            v, how = aero[k][i], rng.choice(['near', 'near', 'nearer', 'flip', 'zero', 'swap'])
            if how in ('near', 'nearer') or k not in SIGNED:
                aero[k][j] = round(v*(1 + rng.choice([-1, 1])*10**-(rng.uniform(2, 4) if how == 'near' else rng.uniform(4, 7))), 12)
            elif how == 'flip':
                aero[k][j] = -v
            elif how == 'zero':
                aero[k][j] = 0
            else:
                o = rng.choice(SIGNED)
                aero[k][j], aero[o][j] = aero[o][j], aero[k][j]
    if n == 1 and rng.random() < 0.5:
        aero = {k: v[0] for k, v in aero.items()}
    return {'aero': aero}


def aero_of(proj, name='main'):
    """{parameter: list} of the flight states an analysis works on (flight angles only for a CPACS map: the rest is derived)."""
    se = proj['settings'][name]
    if se['state'].lower() == '__cpacs':
        from .cpacs import used_map
        d = proj['cpacs'][se['aircraft']]
        m = d['maps'][used_map(d)]
        return {'altitude': m['altitude'], 'mach': m['machNumber'], 'alpha': m['angleOfAttack'], 'beta': m['angleOfSideslip']}
    return {k: (v if isinstance(v, list) else [v]) for k, v in proj['state'][se['state']]['aero'].items() if v is not None}


def count(proj, name='main'):
    """Number of flight states of an analysis."""
    return len(aero_of(proj, name)['alpha'])


def with_states(proj, idx, name='main'):
    """The same project with only the listed states, in that order."""
    p = json.loads(json.dumps(proj))
    se = p['settings'][name]
    if se['state'].lower() == '__cpacs':
        from .cpacs import used_map
        d = p['cpacs'][se['aircraft']]
        m = d['maps'][used_map(d)]
        for k in ('altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip'):
            m[k] = [m[k][i] for i in idx]
    else:
        p['state'][se['state']] = take_states(p['state'][se['state']], idx)
    return p


def any_project(rng, p_cpacs=0.12, **kw):
    """A native project, or sometimes a CPACS one."""
    if rng.random() < p_cpacs:
        from . import cpacs
        return cpacs.gen(rng, plots=kw.get('plots', 'off'), states=kw.get('states'))
    return gen_project(rng, **kw)


def n_states(state):
    v = state['aero']['alpha']
    return len(v) if isinstance(v, list) else 1


def take_states(state, idx):
    """The state file with only the listed states, in that order."""
    out = {}
    for k, v in state['aero'].items():
        v = v if isinstance(v, list) else [v]
        out[k] = [v[i] for i in idx]
    return {'aero': out}


def gen_aircraft(rng, small=False, controls=None, name='ac'):
    wings, airfoils = [], {}
    n_wings = 1 if small else rng.choice([1, 1, 2])
    span_total = 0
    for w in range(n_wings):
        x0, z0 = (0.0, 0.0) if w == 0 else (rnd(rng, 4, 7), rnd(rng, 0.3, 1.5))
        sym = rng.choice([2, 2, 2, 0]) if w == 0 else rng.choice([2, 0])
        scale = 1.0 if w == 0 else 0.5
        n_seg = 1 if small else rng.choice([1, 1, 2])
        root = rnd(rng, 1.0, 2.2) * scale
        a = [x0, 0.0, z0]
        segs = []
        for s in range(n_seg):
            span = rnd(rng, 1.5, 4.5) * scale
            sweep = rnd(rng, -0.3, 1.0) * scale
            dih = rng.choice([0.0, rnd(rng, -0.2, 0.5)]) * scale
            tip = round(root * rnd(rng, 0.5, 1.0), 4)
            b = [round(a[0] + sweep, 4), round(a[1] + span, 4), round(a[2] + dih, 4)]
            c = [round(b[0] + tip, 4), b[1], b[2]]
            d = [round(a[0] + root, 4), a[1], a[2]]
            foil = rng.choice(['NACA0000', 'NACA2412', 'NACA4415', 'blade'])
            if foil == 'blade':
                nm = rng.choice(['blade.T', 'blade.T', 'blade.T', 'T', '../profiles/blade.T', '../profiles/foil-']) + str(rng.randint(0, 2))
                t = rnd(rng, 0.02, 0.06)
                cmb = rng.choice([0.0, 0.01, 0.02])
                airfoils[nm] = BLADE.format(
                    name='profile', u1=round(t * .4 + cmb * .3, 5), u2=round(t * .9 + cmb * .8, 5), u3=round(t * 1.2 + cmb, 5),
                    u4=round(t * .8 + cmb * .4, 5), l1=round(-t * .4 + cmb * .3, 5), l2=round(-t * .9 + cmb * .8, 5),
                    l3=round(-t * 1.2 + cmb, 5), l4=round(-t * .8 + cmb * .4, 5))
                foil = os.path.normpath('airfoils/' + nm)
            seg = {'uid': f'w{w}s{s}', 'vertices': {'a': a, 'b': b, 'c': c, 'd': d},
                   'airfoils': {'inner': foil, 'outer': foil}}
            if rng.random() < 0.6:
                seg['panels'] = {'num_c': rng.choice([None, 1, 2, 3]), 'num_s': rng.choice([None, 2, 3])}
            segs.append(seg)
            a, root = list(b), tip
        span_total = max(span_total, a[1])
        wing = {'uid': f'wing{w}', 'symmetry': sym, 'segments': segs}
        ctrls = []
        use = rng.random() < 0.6 if controls is None else controls
        if use:
            e0 = rng.choice([0.2, 0.25, 0.5])
            hinge = rng.choice([0.6, 0.7])
            ctl = {'uid': f'w{w}flap', 'device_type': 'flap', 'deflection': rng.choice([5, -8, 3.5, 0]),
                   'deflection_mirror': rng.choice([5, -5, 0, 2]),
                   'segment_uid': {'inner': f'w{w}s0', 'outer': f'w{w}s0'},
                   'rel_vertices': {'eta_inner': e0, 'eta_outer': rng.choice([0.75, 0.8, 0.9]),
                                    'xsi_inner': hinge, 'xsi_outer': hinge},
                   'rel_hinge_vertices': {'xsi_inner': hinge, 'xsi_outer': hinge},
                   'panels': {'num_c': rng.choice([None, 1, 2])}}
            ctrls.append(ctl)
            if n_seg == 2 and rng.random() < 0.5:
                ctl['segment_uid']['outer'] = f'w{w}s1'
                ctl['rel_vertices']['eta_outer'] = 0.6
            if rng.random() < 0.3:
                ctrls.append({'uid': f'w{w}slat', 'device_type': 'slat', 'deflection': rng.choice([4, -3]),
                              'deflection_mirror': 4, 'segment_uid': {'inner': f'w{w}s0', 'outer': f'w{w}s0'},
                              'rel_vertices': {'eta_inner': 0.1, 'eta_outer': 0.6, 'xsi_inner': 0.2, 'xsi_outer': 0.2},
                              'rel_hinge_vertices': {'xsi_inner': 0.2, 'xsi_outer': 0.2},
                              'panels': {'num_c': rng.choice([None, 1])}})
        if ctrls:
            wing['controls'] = ctrls
        wings.append(wing)
    ac = {'uid': name, 'refs': {'area': rnd(rng, 5, 20, 2), 'span': round(2 * span_total, 3), 'chord': rnd(rng, 0.8, 2.0),
                                'gcenter': [rnd(rng, 0, 1), 0, 0], 'rcenter': [rnd(rng, 0, 1), 0, rng.choice([0, 0.1])]},
          'wings': wings}
    return ac, airfoils


def gen_deformation(rng, ac):
    out = {}
    if rng.random() < 0.08:
        return out                          # nothing is deformed
    for w in ac['wings']:
        if w is not ac['wings'][0] and rng.random() < 0.5:
            continue
        ymax = w['segments'][-1]['vertices']['b'][1]
        x0, z0 = w['segments'][0]['vertices']['a'][0], w['segments'][0]['vertices']['a'][2]
        n = rng.choice([2, 3, 5])
        kz, kt = rnd(rng, -0.03, 0.05, 4), rnd(rng, -0.02, 0.02, 4)
        rows, rows_m = [], []
        for i in range(n):
            y = round(ymax * i / (n - 1), 4)
            rows.append([x0 + 0.3, y, z0, 0.0, 0.0, round(kz * y * y, 6), round(kt * y / 5, 6), round(kt * y, 6), 0.0])
            rows_m.append([x0 + 0.3, -y, z0, 0.0, 0.0, round(kz * y * y, 6), round(-kt * y / 5, 6), round(kt * y, 6), 0.0])
        out[w['uid']] = rows
        if w['symmetry']:
            if rng.random() < 0.8:
                out[w['uid'] + '_m'] = rows_m
    if rng.random() < 0.2:
        out['_ignored'] = [[0.0] * 9]
    return out


def gen_settings(rng, plots='off', save=None):
    s = {'aircraft': 'ac.json', 'state': 'st.json', 'vlm_autopanels_c': rng.choice([1, 2, 2, 3]),
         'vlm_autopanels_s': rng.choice([2, 3, 4])}
    if rng.random() < 0.1:
        del s[rng.choice(['vlm_autopanels_c', 'vlm_autopanels_s'])]          # the default holds
    if save is None:
        save = {k: True for k in SAVE_KEYS} if rng.random() < 0.4 else {k: rng.random() < 0.6 for k in SAVE_KEYS}
        if not any(save.values()):
            save[rng.choice(SAVE_KEYS)] = True
    s['save_results'] = save
    p = {k: {'opt': [], 'show': False, 'save': False} for k in ('geometry', 'lattice', 'matrix_downwash', 'results')}
    if plots == 'some':
        for k in p:
            p[k]['save'] = rng.random() < 0.5
        p['results']['opt'] = rng.choice([['cp'], ['cp', 'gamma'], ['vmag'], ['fz', 'vx'], []])
        p['lattice']['opt'] = rng.choice([[], ['deformation']])
        if not any(v['save'] for v in p.values()):
            p[rng.choice(sorted(p))]['save'] = True
        if rng.random() < 0.3:
            k = rng.choice(sorted(p))
            p[k]['show'] = True
    if plots != 'off' or rng.random() < 0.5:
        s['plot'] = p
    if rng.random() < 0.15:
        s['_do_normal_rotations'] = rng.random() < 0.5
    if rng.random() < 0.1:
        s['_epsilon'] = 1e-5
    return s


def gen_project(rng, *, states=None, deform=None, small=None, plots='off', save=None, name='main', controls=None):
    """A project: {'settings': {name: dict}, 'aircraft': {file: dict}, 'state': {...}, 'airfoils': {...}, 'deformation': {...}}"""
    small = rng.random() < 0.5 if small is None else small
    ac, foils = gen_aircraft(rng, small, controls)
    if states is None and plots != 'off':
        states = rng.choice([1, 1, 2, 3])
    st = gen_states(rng, states)
    se = gen_settings(rng, plots, save)
    deform = rng.random() < 0.25 if deform is None else deform
    proj = {'settings': {name: se}, 'aircraft': {'ac.json': ac}, 'state': {'st.json': st}, 'airfoils': foils,
            'deformation': {}}
    if rng.random() < 0.15:
        proj['indent'] = rng.choice([None, None, 8])
    if deform:
        proj['deformation']['def.json'] = gen_deformation(rng, ac)
        se['deformation'] = 'def.json'
    return proj


def write_project(proj, root):
    os.makedirs(root, exist_ok=True)
    for d in ('settings', 'aircraft', 'state'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for n, s in proj['settings'].items():
        with open(os.path.join(root, 'settings', n + '.json'), 'w') as fp:
            json.dump(s, fp, indent=proj.get('indent', 1))
    for kind in ('aircraft', 'state', 'deformation'):
        for n, d in proj.get(kind, {}).items():
            os.makedirs(os.path.join(root, kind), exist_ok=True)
            with open(os.path.join(root, kind, n), 'w') as fp:
                json.dump(d, fp, indent=proj.get('indent', 1))
    for n, d in proj.get('cpacs', {}).items():
        from . import cpacs
        with open(os.path.join(root, 'aircraft', n), 'wb') as fp:
            fp.write(cpacs.to_xml(d))
    for n, t in proj.get('airfoils', {}).items():
        os.makedirs(os.path.join(root, 'airfoils'), exist_ok=True)
        p = os.path.normpath(os.path.join(root, 'airfoils', n))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write(t)
    for rel, t in proj.get('foreign', {}).items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write(t)
