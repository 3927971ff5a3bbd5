"""Fidelity of the gzip stub: compares sim.world.gzip_cli with /usr/bin/gzip on many damaged streams.

Not part of any check (it runs the real helper, whose timing nobody controls); run by hand:
    /opt/venv/bin/python tools/check_stub.py [N]
"""
import gzip
import io
import os
import random
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.world import gzip_cli  # noqa: E402


def member(rng, data):
    b = io.BytesIO()
    with gzip.GzipFile(filename=rng.choice(['', 'abc']), fileobj=b, mode='wb', mtime=0,
                       compresslevel=rng.choice([0, 1, 6, 9])) as g:
        g.write(data)
    return b.getvalue()


def main(n):
    rng = random.Random(5)
    bad = {}
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.gz')
        for i in range(n):
            raw = b''.join(member(rng, rng.choice([
                b'', rng.randbytes(rng.randint(1, 300)), bytes(rng.randint(1, 100000)),
                b'abc' * rng.randint(1, 60000)])) for _ in range(rng.choice([1, 1, 2, 3])))
            k = rng.random()
            if k < 0.45:
                raw = raw[:rng.randint(0, len(raw))]
            elif k < 0.55:
                raw = raw[:len(raw) - rng.randint(0, 12)]
            elif k < 0.8:
                a = bytearray(raw)
                for _ in range(rng.choice([1, 1, 3])):
                    a[rng.randrange(len(a))] ^= 1 << rng.randrange(8)
                raw = bytes(a)
            elif k < 0.9:
                raw += rng.choice([bytes(rng.randint(1, 600)), rng.randbytes(rng.randint(1, 40)),
                                   b'\x1f', b'\x1f\x8b', b'\0', b'\0\x1f\x8b', b'\x1f\x8b\x08'])
            with open(p, 'wb') as f:
                f.write(raw)
            r = subprocess.run(['gzip', '-cd', p], capture_output=True)
            out, rc, msg = gzip_cli(raw)
            real_msg = r.stderr.decode().strip()
            kind = []
            if rc != r.returncode:
                kind.append('rc %d real %d' % (rc, r.returncode))
            if msg.replace('invalid compressed data--', '') not in real_msg.replace('invalid compressed data--', ''):
                kind.append('msg %r real %r' % (msg, real_msg.split(': ', 2)[-1]))
            if out != r.stdout:
                kind.append('output %s' % ('longer' if len(out) > len(r.stdout) else 'shorter' if len(out) < len(r.stdout) else 'differs'))
                if not (out.startswith(r.stdout) or r.stdout.startswith(out)):
                    kind.append('NOT PREFIX')
            if kind:
                bad.setdefault('; '.join(kind), []).append((i, len(raw), len(out), len(r.stdout)))
    for k, v in sorted(bad.items(), key=lambda x: -len(x[1])):
        print(len(v), k, v[:3])
    print('%d streams, %d differ' % (n, sum(map(len, bad.values()))))


main(int(sys.argv[1]) if len(sys.argv) > 1 else 3000)
