"""One worker process: executes simulations on request (JSON lines on stdin, replies on fd 3)."""
import json
import os
import sys
import tempfile
import time
import traceback


def main():
    overlay, prop_id, scratch, out_fd = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    out = os.fdopen(out_fd, 'w', buffering=1)

    def reply(o):
        out.write(json.dumps(o) + '\n')
        out.flush()
    try:
        from sim import host, base, props
        os.environ['SIM_OVERLAY'] = overlay
        host.boot(overlay)
        prop = props.load(prop_id)
        world = base.World(tempfile.mkdtemp(prefix='w-', dir=scratch))
        reply({'ready': True})
    except BaseException:
        reply({'error': traceback.format_exc()})
        return
    for line in sys.stdin:
        job = json.loads(line)
        try:
            if job['cmd'] == 'run':
                for seed in job['seeds']:
                    t = time.monotonic()
                    rep = {'seed': seed}
                    try:
                        world.keep_traces = bool(job.get('traces'))
                        spec = prop.generate(world, job['vseed'], seed, job['tier'])
                    except base.Violation as v:
                        # the fault-free reference needed to place faults already violates the property
                        spec = {'probe_seed': seed, 'vseed': job['vseed'], 'tier': job['tier']}
                        rep.update(violation={'class': v.cls, 'detail': v.detail}, spec=spec, info={}, stats={}, fired={}, nodes=0)
                        reply(rep)
                        continue
                    if spec is None:
                        rep['skip'] = True
                        reply(rep)
                        continue
                    r = prop.simulate(world, spec)
                    if r['violation'] or job.get('spec'):
                        rep['spec'] = spec
                    elif seed % 97 == 0:
                        rep['sample'] = spec
                    if job.get('traces'):
                        import hashlib
                        rep['trace'] = hashlib.sha256(repr((spec, r.pop('traces'), r['violation'], r['fired'])).encode()).hexdigest()
                    rep.update(r)
                    rep['t'] = time.monotonic() - t
                    reply(rep)
                reply({'end': True})
            elif job['cmd'] == 'exec':
                spec = job['spec']
                if 'probe_seed' in spec:
                    try:
                        prop.generate(world, spec['vseed'], spec['probe_seed'], spec['tier'])
                        r = {'violation': None}
                    except base.Violation as v:
                        r = {'violation': {'class': v.cls, 'detail': v.detail}}
                else:
                    r = prop.simulate(world, spec)
                reply(r)
            elif job['cmd'] == 'minimise':
                if 'probe_seed' in job['spec']:
                    reply({'spec': job['spec'], 'tried': 0})
                else:
                    spec, n = prop.minimise(world, job['spec'], job['class'], job.get('budget', 80), job.get('seconds', 60))
                    reply({'spec': spec, 'tried': n})
        except BaseException:
            reply({'error': traceback.format_exc()})
            reply({'end': True})


if __name__ == '__main__':
    main()
