"""A second interpreter with another hash seed that computes undisturbed references (pickles on request)."""
import json
import os
import pickle
import subprocess
import sys
import tempfile

from . import buildrepo


class Peer:
    def __init__(self, overlay, scratch, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([buildrepo.PY, '-m', 'sim.peer', overlay, scratch], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)

    def ask(self, job):
        try:
            self.p.stdin.write(json.dumps(job).encode() + b'\n')
            self.p.stdin.flush()
            n = int(self.p.stdout.readline() or b'-1')
        except (OSError, ValueError):
            n = -1
        if n < 0:
            self.err.seek(0)
            raise RuntimeError('reference process failed: ' + self.err.read()[-2000:].decode(errors='replace'))
        return pickle.loads(self.p.stdout.read(n))


def main():
    overlay, scratch = sys.argv[1:3]
    out = os.fdopen(os.dup(1), 'wb')
    null = os.open('/dev/null', os.O_WRONLY)
    os.dup2(null, 1)
    from . import base, host, props
    host.boot(overlay)
    world = base.World(tempfile.mkdtemp(prefix='peer-', dir=scratch))
    for line in sys.stdin:
        job = json.loads(line)
        world.envs = []
        try:
            r = props.load(job['prop']).peer_reference(world, job)
        except base.Violation as v:
            r = ('violation', v.cls, v.detail)
        data = pickle.dumps(r, protocol=4)
        for e in world.envs:
            e.close()
        out.write(b'%d\n' % len(data) + data)
        out.flush()


if __name__ == '__main__':
    main()
