"""Tree snapshots and output comparison."""
import json
import os
import re
import stat

import numpy as np

from . import seams

PLOT_STAMP = re.compile(r'_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d-\d+')


def snapshot(root, modes=False):
    """{relative path: ('d',) | ('f', bytes) | ('l', target)} without passing through the seams."""
    rt, seams.RT = seams.RT, None
    try:
        out = {}
        st = [root]
        while st:
            d = st.pop()
            for name in os.listdir(d):
                p = os.path.join(d, name)
                rel = os.path.relpath(p, root)
                s = os.lstat(p)
                if stat.S_ISLNK(s.st_mode):
                    out[rel] = ('l', os.readlink(p))
                elif stat.S_ISDIR(s.st_mode):
                    out[rel] = ('d',)
                    st.append(p)
                else:
                    with open(p, 'rb') as fp:
                        out[rel] = ('f', fp.read())
        return out
    finally:
        seams.RT = rt


def sub(tree, prefix):
    pre = prefix.rstrip('/') + '/'
    return {k[len(pre):]: v for k, v in tree.items() if k.startswith(pre)}


def is_file(tree, rel):
    return rel in tree and tree[rel][0] == 'f'


def _group(key):
    m = re.match(r'^(F|M|C)[A-Za-z]$', key)
    return m.group(1) if m else key


def close(a, b, scale, rtol=1e-9):
    if a == b:
        return True
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a != a and b != b:
        return True
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale)


def flat(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from flat(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from flat(v)
    elif isinstance(x, np.ndarray):
        yield from x.ravel().tolist()
    else:
        yield x


def _scale(vals):
    m = 0.0
    for v in vals:
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float('inf'):
            m = max(m, abs(v))
    return m


def same_values(a, b, scale=None, rtol=1e-9):
    """None, or a description of the first difference of two nested values."""
    fa, fb = list(flat(a)), list(flat(b))
    if len(fa) != len(fb):
        return f'{len(fa)} values instead of {len(fb)}'
    s = _scale(fb) if scale is None else scale
    for i, (x, y) in enumerate(zip(fa, fb)):
        if not close(x, y, s, rtol):
            return f'value {i} is {x!r} instead of {y!r}'
    return None


def same_dict(a, b, rtol=1e-9):
    """Dict of numbers/lists, grouped by quantity for the absolute tolerance."""
    if set(a) != set(b):
        return f'keys {sorted(set(a) ^ set(b))} differ'
    groups = {}
    for k in b:
        groups.setdefault(_group(k), []).extend(flat(b[k]))
    for k in b:
        if isinstance(b[k], dict):
            if not isinstance(a[k], dict):
                return f'{k}: not a dict'
            d = same_dict(a[k], b[k], rtol)
            # forces/coefficients of one dict share a scale
            if d and all(isinstance(v, (int, float)) for v in b[k].values()):
                d = same_values([a[k].get(x) for x in b[k]], list(b[k].values()), None, rtol) if set(a[k]) == set(b[k]) else d
        else:
            d = same_values(a[k], b[k], _scale(groups[_group(k)]), rtol)
        if d:
            return f'{k}: {d}'
    return None


def parse_dat(data):
    rows = []
    for line in data.decode().splitlines():
        if line.startswith('#') or not line.strip():
            continue
        rows.append([float(x) for x in line.split(',')])
    return rows


PNG = b'\x89PNG simulated\n'


def same_picture(a, b):
    """Pictures as the stand-in of savefig describes them."""
    a, b = a.splitlines(), b.splitlines()
    if len(a) != len(b):
        return f'the picture has {len(a)} parts instead of {len(b)}'
    for x, y in zip(a, b):
        if x == y:
            continue
        u, v = x.split(), y.split()
        if len(v) != 6 or len(u) != 6 or u[:2] != v[:2] or u[2] != v[2]:
            return f'the picture shows something else: {x[:90]} instead of {y[:90]}'
        if u[0] == 'colors':
            continue                      # steps of a colour scale: rounding may make a difference
        s = [float(t) for t in u[3:] + v[3:]]
        if max(abs(p - q) for p, q in zip(s[:3], s[3:])) > 1e-6*s[5] + 1e-12:
            return f'the picture shows something else: {x[:90]} instead of {y[:90]}'
    return None


def same_file(name, a, b):
    """None or a description of how file content a differs from the expected b."""
    if a == b:
        return None
    if name.endswith('.json'):
        try:
            return same_dict(json.loads(a), json.loads(b))
        except (ValueError, AttributeError, TypeError):
            return f'{len(a)} bytes, not the {len(b)} bytes expected (unparseable)'
    if name.endswith('.dat'):
        ha = [l for l in a.decode(errors='replace').splitlines() if l.startswith('#')]
        hb = [l for l in b.decode(errors='replace').splitlines() if l.startswith('#')]
        if ha != hb:
            return 'header differs'
        if not a.endswith(b'\n'):
            return 'truncated'
        try:
            ra, rb = parse_dat(a), parse_dat(b)
        except ValueError:
            return 'unparseable row'
        if len(ra) != len(rb) or any(len(x) != len(y) for x, y in zip(ra, rb)):
            return f'{len(ra)} rows instead of {len(rb)}'
        return same_values(ra, rb, None, 2e-6) if not len(rb) else _dat_cols(ra, rb)
    if a.startswith(PNG) and b.startswith(PNG):
        return same_picture(a.decode('latin-1'), b.decode('latin-1'))
    return f'{len(a)} bytes differ from the {len(b)} bytes expected'


def _dat_cols(ra, rb):
    n = len(rb[0])
    if n == 10:
        groups = [[0], [1, 2, 3, 4], [5, 6, 7, 8], [9]]
    else:
        groups = [list(range(n - 1)), [n - 1]]
    for g in groups:
        s = _scale(r[c] for r in rb for c in g)
        for i, (x, y) in enumerate(zip(ra, rb)):
            for c in g:
                if not close(x[c], y[c], s * 1e-3, 2e-6):
                    return f'row {i} column {c}: {x[c]!r} instead of {y[c]!r}'
    return None


def norm_plots(tree):
    """Plot names without their time stamp (as a multiset)."""
    out = {}
    for k, v in tree.items():
        n = PLOT_STAMP.sub('', k)
        i = 0
        kk = n
        while kk in out:
            i += 1
            kk = f'{n}#{i}'
        out[kk] = v
    return out


def diff_outputs(got, want, subset=False):
    """First difference between two output trees ({rel: entry}); None when equal."""
    for k in sorted(want):
        if k not in got:
            return f'{k} is missing'
        if got[k][0] != want[k][0]:
            return f'{k} has the wrong type'
        if want[k][0] == 'f':
            d = same_file(k, got[k][1], want[k][1])
            if d:
                return f'{k}: {d}'
        elif got[k] != want[k]:
            return f'{k} differs'
    if not subset:
        extra = sorted(set(got) - set(want))
        if extra:
            return f'{extra[0]} should not exist'
    return None


def same_shown(a, b):
    """The same pictures were shown (in any order)."""
    for x, y, what in ((a, b, 'is shown unexpectedly'), (b, a, 'is not shown')):
        for p in set(x):
            if p not in y and all(same_picture(p, q) for q in set(y)):
                return f'a plot {what}: {p[:90]}'
    return None


def same_data(a, b):
    """Compare the data two analyses returned (see actions.summary)."""
    if set(a) != set(b):
        return f'returned keys {sorted(set(a) ^ set(b))} differ' if set(a) ^ set(b) != {'shown'} else 'plots are shown' if 'shown' in a else 'no plot is shown'
    for k in sorted(b):
        va, vb = a[k], b[k]
        if k == 'shown':
            d = same_shown(va, vb)
        elif isinstance(vb, dict):
            d = same_dict(va, vb)
            if d and k in ('forces', 'coeffs'):
                d = same_values([va.get(x) for x in sorted(vb)], [vb[x] for x in sorted(vb)])
        else:
            d = same_values(va, vb)
        if d:
            return f'returned {k}: {d}'
    return None
