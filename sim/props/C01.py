"""Every stored object is delivered once, in order, exactly framed."""
import os
import random
import struct

from .. import enc, gen, low
from ..core import BadPlan

ID = 'C01'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one generated object tree stored in one container (with its member/frame splits) and '
        'walked depth-first under one helper/file-layer byte schedule; non-trivial if it holds at least 2 objects')
REAL = ['eventio.base', 'eventio.header (compiled)', 'eventio.file_types', 'zlib', 'gzip module', 'zstandard',
        'io.BufferedReader', 'class registry']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['the helper model reproduces GNU gzip output and exit status (checked against /usr/bin/gzip by '
          'tools/check_stub.py)']


def make_huge(rng):
    return dict(mode='huge', size=(1 << 30) * rng.choice([1, 2, 3, 4, 4, 5, 8, 16, 1023, 4095]) + rng.choice([-1, 0, 1, 12345]),
                inner=int(rng.random() < 0.5), seed=rng.randint(0, 10**9), io=dict(seed=rng.randint(0, 10**9)))


def make(rng, idx, tier):
    if idx % 60 == 7:
        return make_huge(rng)
    st = gen.storage_spec(rng)
    big = rng.random() < 0.15
    tree = gen.file_spec(rng, 1, rng.choice([2, 6, 12]), depth=rng.choice([0, 1, 3, 5]),
                         p_known=rng.choice([0.0, 0.5, 0.9]), big=big)
    if rng.random() < 0.08:
        # content larger than every internal buffer
        tree += [dict(gen.raw_spec(rng), n=rng.choice([70000, 131073, 400000, 1 << 20])) for _ in range(rng.randint(1, 3))]
        rng.shuffle(tree)
    plan = dict(mode='tree', tree=tree, st=st, io=gen.io_spec(rng), seed=rng.randint(0, 10**9))
    if any(t.get('n', 0) > 50000 for t in tree):
        plan['io'].pop('short', None)
        plan['io']['buf'] = rng.choice([4096, 1 << 20])
        plan['io']['helper'].update(cap=65536, chunk='mix')
    return plan





def execute(plan, ctx):
    if plan['mode'] == 'huge':
        return huge(plan, ctx)
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    stored = gen.store(data, plan['st'])
    n = sum(1 for t in nodes for _ in t.walk())
    ctx.nontrivial = n > 1
    ctx.key += [plan['st'], plan['tree'], plan['seed']]
    ctx.stats['sched:container_' + plan['st']['fmt']] += 1
    path = ctx.write('f' + gen.SUFFIX[plan['st']['fmt']], stored)
    rng = random.Random('walk/%s' % plan['seed'])
    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, plan['st'])
        low.walk(ctx, f, nodes, data, rng, p_read=rng.choice([0.1, 0.6, 1.0]), p_enter=rng.choice([0.5, 1.0]))
        f.close()
    if any(x.extended for t in nodes for x, _ in t.walk()):
        ctx.probe('extended header')
    ctx.log('walked', n, len(data), len(stored))


def huge(plan, ctx):
    """objects whose length needs the extension field, in a sparse file"""
    size, inner = plan['size'], plan['inner']
    if not 0 < size < 1 << 42:
        raise BadPlan('size')
    # the file has only a few blocks
    import resource
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    try:
        with open(ctx.path('f.dat'), 'wb') as f:
            f.truncate(size + 1000)
    except OSError:
        size = size % (1 << 32)                       # not possible with this file system
    rng = random.Random('huge/%s' % plan['seed'])
    head = enc.Node(rng.choice(gen.RAW_TYPES), 1, 2, payload=rng.randbytes(rng.randint(0, 40)))
    tail = enc.Node(rng.choice(gen.RAW_TYPES), 3, 4, payload=rng.randbytes(rng.randint(1, 40)))
    a, z = rng.randbytes(8), rng.randbytes(8)
    path = ctx.path('f.dat')
    hdr = enc.encode_file([head])
    big = enc.Node(rng.choice(gen.RAW_TYPES), 7, 8, extended=True, payload=b'')
    after = enc.Node(rng.choice(gen.RAW_TYPES), 9, 10, payload=b'xyz!')
    from .. import world as W
    with W.real_open(path, 'wb') as f:
        f.write(hdr)
        pos = len(hdr)
        outer_addr = None
        if inner:
            outer = enc.Node(2010, 1, 5, children=[], extended=True)
            total = 16 + size + len(enc.encode(after, False))
            f.write(enc.header_bytes(outer, total, True))
            outer.hdr_start, outer.addr, outer.size = pos, pos + 20, total
            pos += 20
            f.write(enc.header_bytes(big, size, False))
            big.hdr_start, big.addr, big.size = pos, pos + 16, size
        else:
            f.write(enc.header_bytes(big, size, True))
            big.hdr_start, big.addr, big.size = pos, pos + 20, size
        f.write(a)
        f.seek(big.addr + size - 8)
        f.write(z)
        pos = big.end = big.addr + size
        if inner:
            f.write(enc.encode(after, False))
            enc.layout(after, pos, False)
            pos = after.end
        f.write(enc.encode(tail))
        enc.layout(tail, pos)
    ctx.nontrivial = True
    ctx.key += [size, inner, plan['seed']]
    ctx.probe('object of 1 GiB or more')
    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, dict(fmt='plain'))
        low.check_header(ctx, next(f), head, 'head')
        o = next(f)
        if inner:
            low.check_header(ctx, o, outer, 'outer')
            c, o = o, next(o)
        low.check_header(ctx, o, big, 'big')
        if o.read(8) != a:
            ctx.fail('payload', 'first bytes of a %d byte object differ' % size)
        o.seek(size - 8)
        got = o.read()
        if got != z:
            ctx.fail('payload', 'last bytes of a %d byte object differ: %r' % (size, got[:20]))
        if inner:
            low.check_header(ctx, next(c), after, 'after')
            r = ctx.call(next, c)
            if r[0] != 'StopIteration':
                ctx.fail('extra', 'container of %d bytes does not end: %s' % (outer.size, r[0]))
        t = next(f)
        low.check_header(ctx, t, tail, 'tail')

        if bytes(t.read()) != tail.payload:
            ctx.fail('payload', 'object after a %d byte object differs' % size)
        r = ctx.call(next, f)
        if r[0] != 'StopIteration':
            ctx.fail('extra', 'file does not end: %s' % (r[0],))
        f.close()
    ctx.log('huge', size, inner)



