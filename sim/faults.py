"""Fault generation from the recorded trace of an undisturbed run."""
import errno
import fnmatch
import re

WRITE_ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT]
OPEN_ERR = [errno.EACCES, errno.EMFILE, errno.EROFS, errno.EIO]
READ_ERR = [errno.EIO, errno.ESTALE]

OUT = ('open_w', 'open_x', 'open_a', 'open_rw', 'write', 'truncate', 'rename', 'link', 'symlink', 'fsync', 'chmod', 'utime')
IN = ('open_r', 'read', 'stat', 'listdir')
DEL = ('unlink', 'rmdir')


# the random part of a temporary name: a second attempt has another one
RANDOM = re.compile(r'[0-9a-f]{16,}|(?<=tmp)[a-z0-9_]{8}(?![a-z0-9])')
ANY = '\0'


def role(rel):
    """What the file is to the program: numbered and user-chosen names are alike."""
    d, b = rel.rpartition('/')[::2]
    d = re.sub(r'[0-9]+', '#', d)
    return d if d.endswith(('airfoils', 'aircraft')) else d + '/' + re.sub(r'[0-9]+', '#', b)


def classify(trace):
    """[(class, kind, rel, occurrence)] of every operation."""
    seen, out = {}, []
    wr = set()
    for _, kind, rel in trace:
        rel = RANDOM.sub(ANY, rel)
        k = (kind, rel)
        seen[k] = seen.get(k, 0) + 1
        if kind in ('open_w', 'open_x', 'open_a', 'open_rw'):
            wr.add(rel)
        c = 'out' if kind in OUT or (kind == 'close' and rel in wr) else 'mkdir' if kind == 'mkdir' \
            else 'del' if kind in DEL else 'in'
        out.append((c, kind, rel, seen[k]))
    return out


def pick_op(rng, trace, weights=None, exclude=(), only=None):
    ops = [o for o in classify(trace) if not any(fnmatch.fnmatch(o[2], g) for g in exclude)]
    if only:
        ops = [o for o in ops if any(fnmatch.fnmatch(o[2], g) for g in only)]
    by = {}
    for o in ops:
        by.setdefault(o[0], []).append(o)
    weights = weights or {'out': 6, 'mkdir': 2, 'in': 2, 'del': 2}
    cl = [c for c in sorted(by) if weights.get(c)]
    if not cl:
        return None
    c = rng.choices(cl, [weights[c] for c in cl])[0]
    # spread over kinds first, so that rare kinds (rename, close, ...) get their share
    kinds = sorted({o[1] for o in by[c]})
    k = rng.choice(kinds)
    ops = [o for o in by[c] if o[1] == k]
    if rng.random() < 0.65:
        # ... and over the files, so that a file read once is as likely as one written in pieces
        r = rng.choice(sorted({role(o[2]) for o in ops}))
        ops = [o for o in ops if role(o[2]) == r]
    return rng.choice(ops)


def err_for(rng, kind):
    if kind in ('write', 'fsync', 'truncate', 'close'):
        return rng.choice(WRITE_ERR)
    if kind in ('open_w', 'open_x', 'open_a', 'open_rw', 'mkdir', 'link', 'symlink', 'rename', 'chmod'):
        # (ENOENT: somebody removes the directory at this moment)
        return rng.choice(OPEN_ERR + [errno.ENOSPC] + [errno.ENOENT] * (kind not in ('link', 'symlink', 'chmod')))
    if kind in ('unlink', 'rmdir'):
        return rng.choice([errno.EACCES, errno.EBUSY, errno.EIO, errno.EROFS])
    return rng.choice(READ_ERR + ([errno.EACCES, errno.EMFILE] if kind == 'open_r' else []))


def op_fault(rng, trace, acts=('errno', 'torn_err', 'crash', 'crash_after', 'torn_crash', 'kbd'), **kw):
    o = pick_op(rng, trace, **kw)
    if o is None:
        return None
    _, kind, rel, nth = o
    ok = [a for a in acts if a not in ('torn_err', 'torn_crash', 'short') or kind in ('write',)]
    ok = [a for a in ok if a != 'crash_after' or kind in
          ('write', 'close', 'rename', 'mkdir', 'unlink', 'rmdir', 'link')]
    act = rng.choice(ok)
    f = {'on': 'op', 'kinds': [kind], 'path': glob_escape(rel), 'nth': nth, 'act': act}
    if act in ('errno', 'torn_err'):
        f['errno'] = err_for(rng, kind)
    if act in ('torn_err', 'torn_crash'):
        f['frac'] = rng.choice([0.0, 0.1, 0.5, 0.9])
    if act in ('errno', 'torn_err') and rng.random() < 0.3:
        f['count'] = rng.choice([2, 5, 1000000])
    return f


def glob_escape(s):
    return ''.join('[' + c + ']' if c in '*?[' else c for c in s).replace(ANY, '*')


def disk_full(rng, trace, exclude=()):
    ops = [o for o in classify(trace) if o[1] in ('write', 'mkdir') and not any(fnmatch.fnmatch(o[2], g) for g in exclude)]
    if not ops:
        return None
    k = rng.randrange(len(ops))
    f = {'on': 'op', 'kinds': ['write', 'mkdir'], 'nth': k + 1, 'count': 1000000, 'act': 'errno', 'errno': errno.ENOSPC}
    if len(exclude) == 1:
        f['notpath'] = exclude[0]
    if rng.random() < 0.65:
        f['act'] = 'torn_err'
        f['frac'] = rng.choice([0.0, 0.3, 0.8])
    return f


def short_io(rng):
    """Legal behaviour, not a failure: reads and writes move fewer bytes than asked."""
    return {'on': 'op', 'kinds': [rng.choice(['read', 'write'])], 'nth': rng.randint(1, 5), 'count': 1000000,
            'act': 'short', 'frac': rng.choice([0.1, 0.37, 0.5])}


def knobs(rng):
    k = {}
    if rng.random() < 0.3:
        k['verb'] = rng.choice(['quiet', 'verbose', 'debug'])
    if rng.random() < 0.6:
        k['bufsize'] = rng.choice([16, 64, 256, 1024, 65536])
    if rng.random() < 0.3:
        k['tick'] = rng.choice([0.0, 1e-6, 0.5, 3600.0])
    if rng.random() < 0.3:
        k['clock'] = rng.choice([0.0, 86399.999, 951782399.5, 4102444800.0])
    if rng.random() < 0.3:
        k['jumps'] = {str(rng.randint(1, 80)): rng.choice([-3600.0, -1e6, 1e6, 86400.0]) for _ in range(rng.randint(1, 3))}
    k['crew'] = rng.randint(0, 99)
    return k


def spot(rng, cover):
    """A source line of the code under test: any line executed, or any line of any function (rare ones get their share)."""
    fs = sorted(cover)
    f = rng.choice(fs)
    n = cover[f]
    return f, rng.choice([rng.randint(1, n), rng.randint(1, min(n, 12))])


def line_fault(rng, cover, acts):
    act = rng.choice(acts)
    if rng.random() < 0.4:
        return {'on': 'line', 'nth': rng.randint(1, max(1, sum(cover.values()))), 'act': act}
    f, n = spot(rng, cover)
    return {'on': 'line', 'path': glob_escape(f), 'nth': n, 'act': act}
