"""Invariant monitors: called at every file operation, before it is performed."""
import os

from . import compare, seams

MUTATING = {'open_w', 'open_x', 'open_a', 'open_rw', 'write', 'truncate', 'unlink', 'rmdir', 'mkdir', 'rename', 'link', 'symlink',
            'chmod', 'utime'}


def real_content(path):
    """Content without passing through the seams; None if absent."""
    try:
        fd = seams.REAL['os.open'](path, os.O_RDONLY) if 'os.open' in seams.REAL else None
    except FileNotFoundError:
        return None
    if fd is not None:
        out = b''
        try:
            while True:
                b = seams.REAL['osread'](fd, 1 << 20)
                if not b:
                    return out
                out += b
        finally:
            seams.REAL['os.close'](fd)
    rt, seams.RT = seams.RT, None
    try:
        with seams.REAL['open'](path, 'rb') as fp:
            return fp.read()
    except FileNotFoundError:
        return None
    finally:
        seams.RT = rt


def allowed(project, ok, cls='touched-user-data'):
    """Only paths for which ok(rel below project) may be changed; everything else below root is the user's."""
    def m(rt, node, kind, rel, info):
        if kind not in MUTATING or rt.violations:
            return
        for r in ([rel, info['src']] if kind == 'rename' and info.get('src') else [rel]):
            p = project + '/'
            if kind in ('mkdir', 'open_x', 'link', 'symlink') and os.path.lexists(os.path.join(rt.root, r)):
                continue                # bound to fail
            if r == project and kind == 'mkdir':
                continue
            if not r.startswith(p) or not ok(r[len(p):], kind):
                rt.violations.append((cls, f'{kind} on {r}'))
    return m


class Watch:
    """Content of some files at every moment must satisfy check(rel, content or None) -> None or text."""

    def __init__(self, root, rels, check, cls):
        self.root, self.rels, self.check, self.cls = root, rels, check, cls
        self.seen = {}

    def look(self, rt):
        for rel in (self.rels() if callable(self.rels) else self.rels):
            p = os.path.join(self.root, rel)
            try:
                st = os.stat.__wrapped__(p) if hasattr(os.stat, '__wrapped__') else os.stat(p)
                sig = (st.st_ino, st.st_size, st.st_mtime_ns)
            except OSError:
                sig = None
            if self.seen.get(rel, 0) == sig:
                continue
            self.seen[rel] = sig
            d = self.check(rel, None if sig is None else real_content(p))
            if d:
                rt.violations.append((self.cls, f'{rel}: {d}'))

    def __call__(self, rt, node, kind, rel, info):
        if not rt.violations:
            self.look(rt)
        if kind in MUTATING:
            self.seen.pop(rel, None)        # look again whatever its size and time stamp
            if info.get('src'):
                self.seen.pop(info['src'], None)
