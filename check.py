#!/opt/venv/bin/python
"""Driver: seeded search over simulated runs.

    check.py run <ID> [--tier quick|thorough] [--count N] [--from N] [--workers N] [--wall S]
    check.py replay <file>
    check.py selftest [ID ...]     same seed twice, other worker, other hash seed: identical traces
"""
import argparse
import collections
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim import buildrepo            # noqa: E402

PY = buildrepo.PY
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
OUT = os.path.join(VERIF, 'out')
HASHSEEDS = 4


def worker_env(hashcls):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'MPL'))}
    e.update(PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(11 * hashcls + 1), MPLBACKEND='Agg',
             MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             MALLOC_PERTURB_=str(60 + hashcls), GLIBC_TUNABLES='glibc.malloc.tcache_count=0', TZ='UTC', LC_ALL='C.UTF-8', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
    return e


class Worker:
    def __init__(self, overlay, prop, scratch, hashcls):
        r, w = os.pipe()
        self.hashcls = hashcls
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PY, '-m', 'sim.worker', overlay, prop, scratch, str(w)], cwd=VERIF,
                                  env=worker_env(hashcls), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                  stderr=self.err, pass_fds=(w,), start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b''
        self.lines = collections.deque()
        self.job = None
        self.eof = False

    def send(self, o):
        self.p.stdin.write(json.dumps(o).encode() + b'\n')
        self.p.stdin.flush()

    def pump(self):
        d = os.read(self.r, 1 << 16)
        if not d:
            self.eof = True
            return
        self.buf += d
        *full, self.buf = self.buf.split(b'\n')
        self.lines.extend(json.loads(x) for x in full)

    def get(self, timeout):
        end = time.monotonic() + timeout
        while not self.lines:
            if self.eof:
                raise RuntimeError('worker died: ' + self.stderr())
            left = end - time.monotonic()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise RuntimeError('worker timed out')
            self.pump()
        return self.lines.popleft()

    def stderr(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode(errors='replace')

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        os.close(self.r)
        self.err.close()


def scratch_dir():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 1 << 30 else None
    return tempfile.mkdtemp(prefix='pytsim-', dir=base)


def findings():
    """Lines 'finding: property=<id> class=<violation class> match=<text>   # ...' of the committed file."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line[8:].split('|')[0].split() if '=' in x)
                d['match'] = line.split('|')[1].strip() if '|' in line else ''
                d['line'] = line.strip()
                out.append(d)
    return out


def known(prop, v, fl):
    for f in fl:
        if f.get('property') == prop and f.get('class') == v['class'] and f['match'] and f['match'] in v['detail']:
            return f
    return None


def meta(overlay, prop):
    """The static description of a property check (counts, rule, components), from a process of its own."""
    code = ('import sys,json;from sim import props,host;p=props.load(sys.argv[1]);'
            'print(json.dumps(dict(quick=p.quick,thorough=p.thorough,per=p.per_project,rule=p.rule,real=p.real,'
            'stubbed=p.stubbed,state_rule=getattr(p,"key_rule",""),level=getattr(p,"level","exploration"))))')
    r = subprocess.run([PY, '-c', code, prop], cwd=VERIF, env=worker_env(0), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(r.stderr.decode()[-3000:])
    return json.loads(r.stdout)


def search(overlay, prop, m, vseed, tier, first, count, nworkers, wall, traces=False, stop=True, hashshift=0):
    """Run seeds first..first+count-1; returns (replies by seed, first violation reply, errors, timed out)."""
    scratch = scratch_dir()
    per = m['per']
    chunks = collections.deque((c, list(range(max(first, c * per), min(first + count, (c + 1) * per))))
                               for c in range(first // per, (first + count - 1) // per + 1))
    workers, replies, errors, bad = [], {}, [], []
    t0 = time.monotonic()
    out_of_time = False
    fl = findings()
    hit = {}
    try:
        for i in range(min(nworkers, len(chunks))):
            workers.append(Worker(overlay, prop, scratch, (i + hashshift) % HASHSEEDS))
        for w in workers:
            o = w.get(120)
            if 'error' in o:
                return replies, None, [o['error']], False, hit
        limit = None                     # lowest chunk with a violation: higher ones need not finish
        busy = True
        while busy:
            now = time.monotonic() - t0
            if now > wall:
                out_of_time = True
            for w in workers:
                if w.job is None and not out_of_time and not errors:
                    for k, (c, seeds) in enumerate(chunks):
                        if (c + hashshift) % HASHSEEDS == w.hashcls or len(workers) < HASHSEEDS or traces:
                            if limit is not None and c > limit:
                                break
                            del chunks[k]
                            w.job = c
                            w.send({'cmd': 'run', 'seeds': seeds, 'vseed': vseed, 'tier': tier, 'traces': traces})
                            break
            active = [w for w in workers if w.job is not None and not (limit is not None and w.job > limit)]
            busy = bool(active)
            if not busy:
                break
            if now > wall + 120:
                errors.append('workers do not finish')
                break
            ready = select.select([w.r for w in active], [], [], 1.0)[0]
            for w in active:
                if w.r in ready:
                    w.pump()
                if w.eof and not w.lines:
                    errors.append('worker died: ' + w.stderr())
                    w.job = None
                    continue
                while w.lines:
                    o = w.lines.popleft()
                    if o.get('end'):
                        w.job = None
                    elif 'error' in o:
                        errors.append(o['error'])
                    else:
                        o['hashcls'] = w.hashcls
                        replies[o['seed']] = o
                        if o.get('violation'):
                            f = known(prop, o['violation'], fl)
                            if f:
                                hit[f['line']] = o
                                continue
                            bad.append(o)
                            if stop:
                                limit = w.job if limit is None else min(limit, w.job)
        bad.sort(key=lambda o: o['seed'])
        return replies, (bad[0] if bad and stop else bad if not stop else None), errors, out_of_time, hit
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def with_worker(overlay, prop, hashcls, fn):
    scratch = scratch_dir()
    w = Worker(overlay, prop, scratch, hashcls)
    try:
        o = w.get(120)
        if 'error' in o:
            raise RuntimeError(o['error'])
        return fn(w)
    finally:
        w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def execute(overlay, prop, hashcls, spec):
    def fn(w):
        w.send({'cmd': 'exec', 'spec': spec})
        o = w.get(300)
        if 'error' in o:
            raise RuntimeError(o['error'])
        return o
    return with_worker(overlay, prop, hashcls, fn)


def cmd_run(a):
    t0 = time.monotonic()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    vseed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        overlay, digest = buildrepo.build()
    except Exception as e:
        print(f'ERROR cannot build the tree: {e}')
        return 2
    built = time.monotonic() - t0
    m = meta(overlay, a.prop)
    count = a.count or m[tier]
    wall = a.wall or (110 if tier == 'quick' else 3300)
    nw = a.workers or min(8, os.cpu_count() or 1)
    t1 = time.monotonic()
    replies, bad, errors, late, hit = search(overlay, a.prop, m, vseed, tier, a.first, count, nw, wall)
    dt = time.monotonic() - t1
    rc = 0
    for line, o in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={a.prop} {o["violation"]["class"]}: {o["violation"]["detail"][:300]}')
    if bad:
        rc = report(overlay, a.prop, vseed, tier, bad)
    elif errors:
        print('ERROR', errors[0][-3000:])
        rc = 2
    evidence(a.prop, tier, vseed, m, replies, dt, time.monotonic() - t0, built, 1 if rc == 1 else 0, late, digest, nw, hit)
    if os.environ.get('SIM_SLOW'):
        for o in sorted(replies.values(), key=lambda o: -o.get('t', 0))[:6]:
            print('slow', o['seed'], round(o.get('t', 0), 2), o.get('stats', {}).get('ops'), o.get('info', {}).get('classes'))
    n = len([r for r in replies.values() if not r.get('skip')])
    print(f'{a.prop} {tier}: {n} simulated runs in {dt:.1f} s with {nw} workers, '
          f'{"violation" if rc == 1 else "error" if rc else "no violation"}{" (wall limit reached)" if late else ""}')
    return rc


def report(overlay, prop, vseed, tier, bad):
    spec, v = bad['spec'], bad['violation']

    def minimise(w):
        w.send({'cmd': 'minimise', 'spec': spec, 'class': v['class'], 'budget': 120, 'seconds': 45})
        o = w.get(200)
        return o.get('spec', spec), o.get('tried', 0)
    try:
        small, tried = with_worker(overlay, prop, bad['hashcls'], minimise)
    except RuntimeError:
        small, tried = spec, 0
    rep = None
    for cand in (small, spec):
        try:
            rep = execute(overlay, prop, bad['hashcls'], cand)
        except RuntimeError:
            rep = None
        if rep and rep['violation']:
            break
    if not rep or not rep['violation']:
        print(f'ERROR {prop}: the violation of seed {bad["seed"]} ({v}) did not reproduce in a fresh process')
        return 2
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f'{prop}-seed{vseed}-{bad["seed"]}.json')
    with open(path, 'w') as fp:
        json.dump({'property': prop, 'seed': bad['seed'], 'vseed': vseed, 'tier': tier, 'hashcls': bad['hashcls'],
                   'violation': rep['violation'], 'minimised_with': tried, 'spec': cand}, fp, indent=1, sort_keys=True)
    print(f'VIOLATION property={prop} replay={path}')
    print(f'  seed {bad["seed"]}: {rep["violation"]["class"]}: {rep["violation"]["detail"][:1500]}')
    return 1


def evidence(prop, tier, vseed, m, replies, dt, wall, built, violations, late, digest, nw, hit):
    done = [r for r in replies.values() if not r.get('skip')]
    stats, fired = collections.Counter(), collections.Counter()
    keys, classes = set(), collections.Counter()
    nodes = 0
    samples = []
    for r in sorted(done, key=lambda r: r['seed']):
        stats.update(r.get('stats') or {})
        fired.update(r.get('fired') or {})
        nodes += r.get('nodes', 0)
        info = r.get('info') or {}
        if info.get('nontrivial'):
            keys.add(json.dumps(info.get('key'), sort_keys=True))
        for c in info.get('classes', ()):
            classes[c] += 1
        if 'sample' in r and len(samples) < 3:
            samples.append({'seed': r['seed'], 'spec': r['sample']})
    if not samples and done:
        samples = [{'seed': r['seed'], 'info': r.get('info')} for r in done[:2]]
    hours = max(dt, 1e-6) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': m['level'], 'wall_s': round(wall, 2), 'violations': violations,
        'coverage': {
            'evaluations': len(done), 'distinct_nontrivial': len(keys), 'rule': m['rule'], 'samples': samples,
            'distinct_measure': m['state_rule'] or 'key of the run: see rule',
            'node_incarnations': nodes, 'seeds_per_hour': round(len(done) / hours), 'simulated_runs_per_hour': round(len(done) / hours),
            'simulated_seconds_covered': round(stats.pop('simtime', 0.0), 3), 'seam_events': dict(stats),
            'faults_injected': dict(sorted(fired.items())), 'fault_kinds': len(fired), 'case_classes': dict(sorted(classes.items())),
            'workers': nw, 'hash_seeds': HASHSEEDS, 'search_seconds': round(dt, 2), 'build_seconds': round(built, 2),
            'wall_limit_reached': late, 'tree': digest, 'real_components': m['real'], 'stub_components': m['stubbed'],
            'known_findings_seen': len(hit),
        },
        'assumptions': ['the scratch file system behaves like POSIX; durability is modelled as: everything passed to the operating '
                        'system survives a process crash, everything still buffered in the process is lost (no power-loss model)',
                        'findings are limited to the seeds explored; this is a search, not a proof'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)


def cmd_replay(a):
    with open(a.file) as fp:
        r = json.load(fp)
    overlay, _ = buildrepo.build()
    o = execute(overlay, r['property'], r.get('hashcls', 0), r['spec'])
    if o['violation']:
        print(f'VIOLATION property={r["property"]} replay={os.path.abspath(a.file)}')
        print(f'  {o["violation"]["class"]}: {o["violation"]["detail"]}')
        return 1
    print('no violation')
    return 0


def cmd_selftest(a):
    overlay, _ = buildrepo.build()
    rc = 0
    ids = a.props or [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    for prop in ids:
        m = meta(overlay, prop)
        n = a.count or 48
        runs = []
        for nw, shift in ((8, 0), (3, 0), (5, 2)):
            rep, bad, err, late, _ = search(overlay, prop, m, 1, 'quick', 0, n, nw, 900, traces=True, stop=False, hashshift=shift)
            if err:
                print(prop, 'ERROR', err[0][-1500:])
                rc = 2
                break
            runs.append({s: (r.get('trace'), bool(r.get('violation'))) for s, r in rep.items()})
        else:
            diff = [s for s in runs[0] if any(x.get(s) != runs[0][s] for x in runs[1:])]
            print(f'{prop}: {len(runs[0])} seeds, 3 executions each (other workers, other hash seeds): '
                  f'{len(diff)} differ {diff[:10]}; violations {sum(v[1] for v in runs[0].values())}')
            rc = rc or (1 if diff else 0)
    return rc


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    r = sp.add_parser('run')
    r.add_argument('prop')
    r.add_argument('--tier')
    r.add_argument('--count', type=int)
    r.add_argument('--from', dest='first', type=int, default=0)
    r.add_argument('--workers', type=int)
    r.add_argument('--wall', type=float)
    p = sp.add_parser('replay')
    p.add_argument('file')
    sp.add_parser('build')
    s = sp.add_parser('selftest')
    s.add_argument('props', nargs='*')
    s.add_argument('--count', type=int)
    a = ap.parse_args()
    if a.cmd == 'build':
        print(*buildrepo.build())
        return 0
    return {'run': cmd_run, 'replay': cmd_replay, 'selftest': cmd_selftest}[a.cmd](a)


if __name__ == '__main__':
    sys.exit(main())
