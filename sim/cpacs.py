"""CPACS projects: an XML aircraft with aeroperformance maps instead of native model (and state) files."""
import fnmatch
import os
import xml.etree.ElementTree as ET

from . import project as P

VECTORS = {'cl': 'CL', 'cd': 'CD', 'cs': 'CC', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}

# calls of the libraries that may fail by themselves; a failing "get" otherwise means that something optional is not there
REQUIRED = [('open', '*'), ('tigl.open', '*'), ('saveDocument', '*'), ('addFloatVector', '*'), ('updateFloatVector', '*'), ('wing*', '*'),
            ('checkElement', '*'), ('xPathEvaluateNodeNumber', '*'), ('uIDGetXPath', '*'), ('getVectorSize', '*'), ('getFloatVector', '*'),
            ('getTextElement', 'pointList/*'), ('getTextElement', '*/aeroMapUID'), ('getDoubleElement', 'reference/*'), ('getDoubleElement', 'point/*'),
            ('getNamedChildrenCount', '*/wings'), ('getNamedChildrenCount', '*/segments'), ('getNumberOfChilds', '*'),
            ('getTextAttribute', '*/model'), ('getTextAttribute', '*/aeroMap'), ('getTextAttribute', '*/controlDevice'), ('getTextAttribute', '*/trailingEdgeDevice')]


def lib_fault(rng, libs, acts=('libfail',)):
    """A failing call of the libraries: any kind of call is as likely as any other."""
    calls = [c for c in map(tuple, libs) if any(fnmatch.fnmatch(c[0], n) and fnmatch.fnmatch(c[1], p) for n, p in REQUIRED)]
    if not calls:
        return None
    name = rng.choice(sorted({c[0] for c in calls}))
    c = rng.choice(sorted({c for c in calls if c[0] == name}))
    f = {'on': 'cpacs', 'kinds': [name], 'nth': rng.randint(1, calls.count(c)), 'act': rng.choice(list(acts))}
    if c[1]:
        f['path'] = c[1]
    return f


def foil_points(rng):
    t, c = P.rnd(rng, 0.02, 0.06), rng.choice([0.0, 0.01, 0.02])
    up = [(1.0, 0.001), (0.9, t * .4 + c * .3), (0.7, t * .9 + c * .8), (0.4, t * 1.2 + c), (0.1, t * .8 + c * .4), (0.0, 0.0)]
    lo = [(0.1, -t * .8 + c * .4), (0.4, -t * 1.2 + c), (0.7, -t * .9 + c * .8), (0.9, -t * .4 + c * .3), (1.0, -0.001)]
    return [[round(a, 6), round(b, 6)] for a, b in up + lo]


def gen(rng, plots='off', states=None, state_from_cpacs=None):
    """A project dict with an additional entry 'cpacs': {file name: description}."""
    small = rng.random() < 0.6
    ac, _ = P.gen_aircraft(rng, small)
    foils = {f'F{i}': foil_points(rng) for i in range(rng.choice([1, 2]))}
    ctl_spec = []
    for w in ac['wings']:
        for s in w['segments']:
            s['foil'] = rng.choice(sorted(foils))
            s.pop('airfoils', None)
            s.pop('panels', None)
        cs = []
        for c in w.pop('controls', []):
            if c['device_type'] != 'flap':
                continue
            c['segment_uid']['outer'] = c['segment_uid']['inner']
            c['rel_vertices']['eta_outer'] = max(c['rel_vertices']['eta_outer'], 0.7)
            if w is ac['wings'][0] and rng.random() < 0.8:      # devices of a later wing cannot be set (see DESIGN.md)
                d = {'uid': c['uid'], 'deflection': c['deflection'], 'mirror': c['deflection_mirror'] if rng.random() < 0.8 else None}
                ctl_spec.append(d)
            cs.append(c)
        w['controls'] = cs
    n = states or rng.choice([1, 2, 2, 3, 4])
    maps = {}
    nm = rng.choice([1, 1, 2, 3])
    for i in range(nm):
        k = n if i == 0 else rng.choice([1, 2, 3])
        maps[f'map{i}'] = {'altitude': [rng.choice([0, 500, 3000, 11000, rng.randint(0, 12000)]) for _ in range(k)],
                           'machNumber': [P.rnd(rng, 0.1, 0.4) for _ in range(k)],
                           'angleOfAttack': [P.rnd(rng, -4, 10, 2) for _ in range(k)],
                           'angleOfSideslip': [rng.choice([0, P.rnd(rng, -5, 5, 2)]) for _ in range(k)]}
        if rng.random() < 0.4:
            # results of an earlier analysis (some of them), possibly of another length
            for v in VECTORS:
                if rng.random() < 0.7:
                    maps[f'map{i}'][v] = [P.rnd(rng, -1, 1) for _ in range(rng.choice([k, k, 1, k + 2]))]
    use = rng.choice(sorted(maps))
    desc = {'uid': 'plane', 'wings': ac['wings'], 'refs': ac['refs'], 'foils': foils, 'maps': maps, 'use': use, 'devices': ctl_spec,
            'note': rng.choice(['', 'x' * rng.choice([10, 3000]), 'süß & <gefährlich>'])}
    se = P.gen_settings(rng, plots)
    se['aircraft'] = 'ac.xml'
    fromcp = rng.random() < 0.8 if state_from_cpacs is None else state_from_cpacs
    se['state'] = rng.choice(['__cpacs', '__CPACS']) if fromcp else 'st.json'
    se['save_results'] = {k: rng.random() < 0.5 for k in P.SAVE_KEYS}
    proj = {'settings': {'main': se}, 'aircraft': {}, 'state': {}, 'airfoils': {}, 'deformation': {}, 'cpacs': {'ac.xml': desc}}
    if not fromcp:
        proj['state']['st.json'] = P.gen_states(rng)
    return proj


def _vec(parent, name, v):
    e = ET.SubElement(parent, name, mapType='vector')
    e.text = ';'.join('%.10g' % x for x in v)


def _path(parent, path, text=None, **attrib):
    e = parent
    for p in path.split('/'):
        c = e.find(p)
        e = ET.SubElement(e, p) if c is None else c
    if text is not None:
        e.text = str(text)
    e.attrib.update(attrib)
    return e


def to_xml(d):
    root = ET.Element('cpacs')
    _path(root, 'header/name', 'simulated ' + d['note'])
    _path(root, 'vehicles/aircraft/model', uID=d['uid'])
    model = root.find('vehicles/aircraft/model')
    _path(model, 'reference/area', d['refs']['area'])
    _path(model, 'reference/length', d['refs']['chord'])
    for k, v in zip('xyz', d['refs']['gcenter']):
        _path(model, 'reference/point/' + k, v)
    wings = _path(model, 'wings')
    for w in d['wings']:
        we = ET.SubElement(wings, 'wing', uID=w['uid'], simSymmetry=str(w['symmetry']))
        ss = ET.SubElement(we, 'segments')
        cs = ET.SubElement(we, 'componentSegments')
        for s in w['segments']:
            ET.SubElement(ss, 'segment', uID=s['uid'], simFoil=s['foil'],
                          simPoints=';'.join(','.join(repr(float(x)) for x in s['vertices'][v]) for v in 'abcd'))
            ce = ET.SubElement(cs, 'componentSegment', uID='c' + s['uid'], simSegment=s['uid'])
            for c in w['controls']:
                if c['segment_uid']['inner'] != s['uid']:
                    continue
                te = _path(ce, 'controlSurfaces/trailingEdgeDevices')
                x = ET.SubElement(te, 'trailingEdgeDevice', uID=c['uid'])
                for b, k in (('inner', 'innerBorder'), ('outer', 'outerBorder')):
                    for q in ('etaLE', 'etaTE'):
                        _path(x, f'outerShape/{k}/{q}/eta', c['rel_vertices']['eta_' + b])
                    _path(x, f'outerShape/{k}/xsiLE/xsi', c['rel_vertices']['xsi_' + b])
                    _path(x, f'path/{b}HingePoint/hingeXsi', c['rel_hinge_vertices']['xsi_' + b])
    ap = _path(model, 'analyses/aeroPerformance')
    for u, m in d['maps'].items():
        me = ET.SubElement(ap, 'aeroMap', uID=u)
        ET.SubElement(me, 'name').text = u
        pe = ET.SubElement(me, 'aeroPerformanceMap')
        for k, v in m.items():
            _vec(pe, k, v)
    fo = _path(root, 'vehicles/profiles/wingAirfoils')
    for n, pts in d['foils'].items():
        f = ET.SubElement(fo, 'wingAirfoil', uID='foil' + n)
        ET.SubElement(f, 'name').text = n
        pl = ET.SubElement(f, 'pointList')
        _vec(pl, 'x', [p[0] for p in pts])
        _vec(pl, 'z', [p[1] for p in pts])
    _path(root, 'toolspecific/othertool/data', 'keep me ' + d['note'])
    pt = _path(root, 'toolspecific/pytornado')
    if len(d['maps']) > 1:
        _path(pt, 'aeroMapUID', d['use'])
    for c in d['devices']:
        ce = ET.SubElement(_path(pt, 'controlDevices'), 'controlDevice', uID=c['uid'])
        ET.SubElement(ce, 'deflection').text = str(c['deflection'])
        if c['mirror'] is not None:
            ET.SubElement(ce, 'deflectionMirror').text = str(c['mirror'])
    return ET.tostring(root, encoding='utf-8', xml_declaration=True)


def write(proj, root):
    P.write_project(proj, root)


def changed(before, after, proj):
    """None, or what differs in the CPACS files of two project trees (coefficients of the used map compared as numbers)."""
    for n, d in proj.get('cpacs', {}).items():
        rel = 'aircraft/' + n
        a, b = before.get(rel), after.get(rel)
        if a == b:
            continue
        if a is None or b is None or a[0] != b[0]:
            return f'{rel} is missing'
        x, y = parse(a[1]), parse(b[1])
        if y is None:
            return f'{rel} is not a complete document'
        (va, ra), (vb, rb) = strip(x, used_map(d)), strip(y, used_map(d))
        if ra != rb:
            return f'{rel}: other content than the coefficients differs'
        sc = max([abs(v) for l in va.values() for w in l for v in w] or [0])
        for v in sorted(set(va) | set(vb)):
            if len(va.get(v, [])) != len(vb.get(v, [])) or any(
                    len(p) != len(q) or any(abs(i - j) > 1e-6 * abs(i) + 1e-9 * sc for i, j in zip(p, q)) for p, q in zip(va[v], vb[v])):
                return f'{rel}: {v} is {vb.get(v)} instead of {va.get(v)}'
    return None


def owned(proj):
    """rel -> may an analysis of this CPACS project write there (the CPACS file itself, the airfoil files taken from it)?"""
    import re
    pats = []
    for n, d in proj.get('cpacs', {}).items():
        if any(s['state'].lower() == '__cpacs' and s['aircraft'] == n for s in proj['settings'].values()):
            pats.append(re.compile(rf'^aircraft/\.?{re.escape(n)}[^/]*$'))
        for f in d['foils']:
            pats.append(re.compile(rf'^airfoils/\.?blade\.{re.escape(f)}(\..*)?$'))
    return lambda rel: any(p.match(rel) for p in pats)


def used_map(d):
    return d['use'] if len(d['maps']) > 1 else list(d['maps'])[0]


def parse(data):
    """(everything but the coefficient vectors of the used map, as text; {vector: values}) or None if not complete."""
    try:
        return ET.fromstring(data)
    except ET.ParseError:
        return None


def numbers(text):
    out = []
    for x in (text or '').split(';'):
        if x.strip():
            try:
                out.append(float(x))
            except ValueError:
                out.append(x.strip())
    return out


def strip(root, uid):
    """Remove the coefficient vectors of a map; returns (their values, canonical rest)."""
    out = {}
    for m in root.iter('aeroMap'):
        if m.attrib.get('uID') == uid:
            pm = m.find('aeroPerformanceMap')
            for c in list(pm):
                if c.tag in VECTORS:
                    out.setdefault(c.tag, []).append(numbers(c.text))
                    pm.remove(c)
    for e in root.iter():
        e.tail = None
        if e.text is not None and not e.text.strip():
            e.text = None
        if e.tag in VECTORS or e.attrib.get('mapType') == 'vector':
            e.text = ';'.join(x if isinstance(x, str) else '%.8g' % x for x in numbers(e.text))
    return out, ET.tostring(root, encoding='unicode')


def order(data):
    """Names of the elements with numbers, in document order."""
    return [e.tag for e in ET.fromstring(data).iter() if e.attrib.get('mapType') == 'vector']


def update_error(data, old, uid, want):
    """None if data is the complete update of old with the vectors want, else a text."""
    if data is None:
        return 'absent'
    a, b = parse(data), parse(old)
    if a is None:
        return f'not a complete document ({len(data)} bytes)'
    va, ra = strip(a, uid)
    _, rb = strip(b, uid)
    if ra != rb:
        return 'other content than the coefficients of the used map has changed'
    for v in VECTORS:
        got = va.get(v, [])
        if len(got) != 1:
            return f'{len(got)} vectors {v} in the map'
        if len(got[0]) != len(want[v]):
            return f'{v} has {len(got[0])} values for {len(want[v])} states'
        sc = max(abs(x) for k in VECTORS for x in want[k])
        for i, (x, y) in enumerate(zip(got[0], want[v])):
            if abs(x - y) > 1e-5 * abs(y) + 1e-9 * sc:
                return f'{v} of state {i} is {x!r}, the result is {y!r}'
    return None
