"""Damage to stored payload bytes (bit flips, lost and stale sectors), as JSON specs."""
import random
import struct

from .core import BadPlan

KINDS = ('flip', 'zero', 'ones', 'max', 'noise', 'stale', 'int', 'small')


def spec(rng, n=None):
    """the damages of one top-level object"""
    return [dict(k=rng.choice(KINDS), w=rng.choice(['head', 'head', 'front', 'front', 'any', 'end']), i=rng.randint(0, 10**6),
                 off=rng.randint(0, 10**6), n=rng.choice([1, 1, 1, 2, 4, 4, 8, 64, 4096]), s=rng.randint(0, 10**6))
            for _ in range(n or rng.choice([1, 1, 1, 2, 4]))]


def target(nodes, at):
    """index of a top-level node that has a payload"""
    for i in range(len(nodes)):
        k = (at + i) % len(nodes)
        if nodes[k].end > nodes[k].addr:
            return k
    raise BadPlan('nothing to damage')


def apply(data, top, ds):
    """data with the payload of the top-level node damaged; its own header is never touched"""
    b = bytearray(data)
    flat = [n for n, _ in top.walk()]
    for d in ds:
        if d['n'] < 1 or d['k'] not in KINDS:
            raise BadPlan(str(d))
        n = flat[d['i'] % len(flat)]
        lo = max(top.addr, n.hdr_start if d['w'] == 'head' else n.addr)
        hi = {'head': n.addr if n is not top else n.addr + 12, 'front': n.addr + (8, 24, 80)[d['s'] % 3], 'any': n.end,
              'end': n.end}[d['w']]
        if d['w'] == 'end':
            lo = max(lo, n.end - 12)
        hi = min(hi, top.end)
        if lo >= hi:
            lo, hi = top.addr, top.end
        if lo >= hi:
            continue
        p = lo + d['off'] % (hi - lo)
        e = min(p + d['n'], top.end)
        r = random.Random('damage/%s' % d['s'])
        k = d['k']
        if k == 'flip':
            b[p] ^= 1 << r.randrange(8)
        elif k in ('int', 'small'):
            # a whole number is replaced
            p -= (p - lo) % 2
            size = r.choice([2, 4])
            v = r.choice([-1, -2, 0x7fff, -0x8000, 0x7fffffff, -2**31, 256, 10**6]) if k == 'int' else r.randint(0, 40)
            raw = struct.pack('<q', v)[:size]
            raw = raw[:top.end - p]
            b[p:p + len(raw)] = raw
        elif k == 'stale':
            q = r.randrange(0, len(data))
            src = data[q:q + e - p]
            b[p:p + len(src)] = src
        else:
            for j in range(p, e):
                b[j] = dict(zero=0, ones=255, max=127 if (j - p) % 4 == 3 else 255).get(k, r.randrange(256))
    assert len(b) == len(data)
    b[:top.addr] = data[:top.addr]
    b[top.end:] = data[top.end:]
    return bytes(b)
