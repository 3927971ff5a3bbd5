"""Chunked photon reading equals whole reading."""
import numpy as np

from .. import enc, gen, iactgen as G, low
from ..compare import diff, short
from ..core import BadPlan
from ..enc import Node
from ..objs import Approx
from . import C13

ID = 'C19'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one file with several photon blocks and other objects, intact or torn, several chunked '
        'readings, also of one block, advanced in a scheduled interleaving with reads of the same and of other objects (forward-only sources: one block after '
        'the other), under short raw reads, read errors and a scheduled gzip helper; non-trivial if a reading has >= 2 chunks')
REAL = ['eventio.iact.Photons', 'eventio.base', 'zlib', 'zstandard']
STUB = C13.STUB
ASSUME = ['after an error a chunked reading is started again']


def make(rng, idx, tier):
    blocks = []
    for i in range(rng.randint(1, 4)):
        if i == 0 or rng.random() < 0.7:
            blocks.append(dict(k='ph', p=G.photons_spec(rng, rng.randint(0, 50), big=rng.random() < 0.1),
                               box=int(rng.random() < 0.5)))
        else:
            blocks.append(dict(k='raw', o=gen.raw_spec(rng)))
    ops = [[rng.choice(['open', 'chunk', 'chunk', 'chunk', 'chunk', 'other', 'whole', 'fread', 'fault', 'again', 'self']), rng.randint(0, 10**6),
            rng.choice([1, 1, 2, 3, 7, 16, 100, 10**6])] for _ in range(rng.randint(3, 30))]
    return dict(blocks=blocks, ops=ops, st=gen.storage_spec(rng, ('plain', 'plain', 'gzpy', 'gz', 'zst')), io=gen.io_spec(rng),
                cut=gen.cut_spec(rng) if rng.random() < 0.3 else None)


class Block:
    def __init__(self, o, node, p):
        self.o, self.node, self.p = o, node, p
        self.g = None
        self.done = 0
        self.size = None


def table(expect):
    """stored rows in order, as (column arrays, is-emitter mask) of a complete reading"""
    return expect


def part(cols, a, b):
    return {k: Approx(v.a[a:b], v.rtol) if isinstance(v, Approx) else v[a:b] for k, v in cols.items()}


def execute(plan, ctx):
    nodes, photons = [], []
    for i, b in enumerate(plan['blocks']):
        if b['k'] == 'ph':
            n = G.photons_node(b['p'], i % 10)
            photons.append((n, b['p']))
            nodes.append(Node(1204, 0, i, children=[n], name='c_teldata') if b['box'] else n)
        else:
            nodes.append(gen.realize(b['o']))
    if not photons:
        raise BadPlan('no photons')
    data = enc.encode_file(nodes)
    st = plan['st']
    if plan['cut']:
        t = gen.torn(data, nodes, st, plan['cut'])
        ctx.stats['fault:torn_file'] += 1
    else:
        t = gen.torn_storage(gen.store(data, st), st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    # Python's gzip module is not reliable any more after it has met a truncation
    seekable = st['fmt'] == 'plain' or st['fmt'] == 'gzpy' and t.complete
    ctx.key += [plan['blocks'], plan['ops'], st, plan['cut']]
    ctx.most = 0
    ctx.ahead = None
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        if st['fmt'] == 'plain':
            ctx.ahead = ctx.world.buffer
        if seekable:
            interleaved(plan, ctx, f, nodes, dict((id(n), p) for n, p in photons), t)
        else:
            sequential(plan, ctx, f, nodes, dict((id(n), p) for n, p in photons), t)
        f.close()
    ctx.nontrivial = ctx.most >= 2
    ctx.log('most chunks', ctx.most)


def rows(node):
    """raw float rows -> which stored bunches are emitter records"""
    ph, em = node.expect
    return ph, em


def check_chunk(ctx, b, r, t):
    """the next chunk of block `b`: exact content, or the error due at the truncation"""
    n, c, done = b.p['n'], b.size, b.done
    k = min(c, n - done)
    item = 16 if b.node.version // 1000 == 1 else 32
    end = b.node.addr + 12 + (done + k) * item
    where = 'photon block at %d, %d bunches, chunks of %d, after %d bunches' % (b.node.addr, n, c, done)
    if r[0] == 'StopIteration':
        if done < n:
            ctx.fail('missing', '%s: reading ends' % where)
        b.g = None
        return
    if r[0] != 'ok':
        if end > t.low and r[0] in t.eof:
            ctx.probe('EOFError in a torn block')
            b.g = None
            return
        ctx.fail('error', '%s: %s: %s' % (where, r[0], r[1]))
    if end > len(t.content):
        ctx.fail('torn', '%s: a chunk is delivered although only %d bytes survive, %d are needed' % (where, len(t.content), end))
    if n == 0 and b.emptied:
        ctx.fail('extra', '%s: more than one chunk of an empty block' % where)
    if n and done >= n:
        ctx.fail('extra', '%s: a further chunk %s' % (where, short(r[1])))
    b.emptied = True
    try:
        ph, em = r[1]
    except (TypeError, ValueError):
        ctx.fail('chunk', '%s: not a pair: %s' % (where, short(r[1])))
    got = len(ph) + (0 if em is None else len(em))
    if got > c:
        ctx.fail('size', '%s: a chunk of %d bunches' % (where, got))
    # any division into chunks is fine as long as the order and the content are right
    is_em = b.mask[done:done + got]
    if got == 0 and n:
        ctx.fail('size', '%s: an empty chunk' % where)
    if done + got > n:
        ctx.fail('extra', '%s: %d bunches too many' % (where, done + got - n))
    e0 = int(b.mask[:done].sum())
    e1 = e0 + int(is_em.sum())
    p0, p1 = done - e0, done + got - e1
    wph, wem = b.node.expect
    d = diff(part(wph, p0, p1), ph, 'photons')
    if not d and e1 > e0:
        d = diff(part(wem, e0, e1), em, 'emitter')
    if not d and e1 == e0 and em is not None and len(em):
        d = 'emitter records out of nothing: %s' % short(em)
    if d:
        ctx.fail('chunk', '%s: %s' % (where, d))
    if ctx.ahead is not None:
        # "to avoid loading all bunches into memory at the same time": one chunk of look-ahead and the I/O buffer are granted
        limit = end + c * item + ctx.ahead + 64
        if ctx.world.reach > limit:
            ctx.fail('memory', '%s: the chunk ends at byte %d of the file, but the file was read up to %d (I/O buffer of %d)' % (
                where, end, ctx.world.reach, ctx.ahead))
        if b.node.end > limit:
            ctx.probe('chunks read without reading the whole block')
    b.done += got
    b.count += 1
    ctx.probe('chunks')
    ctx.most = max(ctx.most, b.count)


def advance(ctx, b):
    ctx.world.reach = 0
    return ctx.call(next, b.g)


def start(ctx, b, size):
    r = ctx.call(b.o.parse, size) if size % 2 else ctx.call(lambda: b.o.parse(chunksize=size))
    if r[0] != 'ok':
        ctx.fail('error', 'parse(chunksize=%d): %s: %s' % (size, r[0], r[1]))
    b.g, b.size, b.done, b.count, b.emptied = iter(r[1]), size, 0, 0, False
    # order of photon and emitter rows as stored
    n = b.p['n']
    item = 16 if b.node.version // 1000 == 1 else 32
    raw = b.node.payload[12:12 + n * item]
    w = np.frombuffer(raw, '<i2' if item == 16 else '<f4').reshape(n, 8)[:, 7] if n else np.zeros(0)
    b.mask = w == 9999


def sequential(plan, ctx, f, nodes, photons, t):
    sizes = [o[2] for o in plan['ops']] or [1]
    k = 0

    def block(o, node):
        nonlocal k
        b = Block(o, node, photons[id(node)])
        start(ctx, b, sizes[k % len(sizes)])
        k += 1
        while b.g is not None:
            check_chunk(ctx, b, advance(ctx, b), t)

    for i, node in enumerate(nodes):
        r = ctx.call(next, f)
        if r[0] != 'ok':
            if (r[0] in t.eof or r[0] == 'StopIteration' and node.hdr_start >= len(t.content)) and node.addr + min(node.fixed, node.size) > t.low:
                return
            ctx.fail('next', 'object %d: %s: %s' % (i, r[0], r[1]))
        o = r[1]
        if node.children is not None:
            for c in node.children:
                r = ctx.call(next, o)
                if r[0] != 'ok':
                    if r[0] in t.eof and c.addr + c.fixed > t.low:
                        return
                    ctx.fail('next', 'object in %d: %s: %s' % (i, r[0], r[1]))
                block(r[1], c)
        elif id(node) in photons:
            block(o, node)


def interleaved(plan, ctx, f, nodes, photons, t):
    blocks, others = [], []
    i = 0

    def open_one():
        nonlocal i
        if i >= len(nodes):
            return
        node = nodes[i]
        r = ctx.call(next, f)
        if r[0] != 'ok':
            if (r[0] in t.eof or r[0] == 'StopIteration' and node.hdr_start >= len(t.content)) and node.addr + min(node.fixed, node.size) > t.low:
                i = len(nodes)
                return
            ctx.fail('next', 'object %d: %s: %s' % (i, r[0], r[1]))
        i += 1
        pairs = [(r[1], node)]
        if node.children is not None:
            pairs = []
            for c in node.children:
                r2 = ctx.call(next, r[1])
                if r2[0] != 'ok':
                    if r2[0] in t.eof and c.addr + c.fixed > t.low:
                        continue
                    ctx.fail('next', 'object in %d: %s: %s' % (i, r2[0], r2[1]))
                pairs.append((r2[1], c))
        for o, c in pairs:
            (blocks if id(c) in photons else others).append(Block(o, c, photons.get(id(c))))

    open_one()
    for op, k, size in plan['ops'] + [['finish', 0, 3]] * (len(plan['blocks']) + 12):
        if op == 'open':
            open_one()
        elif op in ('chunk', 'finish', 'fault'):
            if not blocks:
                open_one()
                continue
            b = blocks[k % len(blocks)] if op != 'finish' else ([x for x in blocks if x.g is not None] or [blocks[0]])[0]
            if b.g is None:
                start(ctx, b, size)
            if op == 'fault' and plan['st']['fmt'] == 'plain':
                ctx.world.arm('EIO', k % 2)
                r = advance(ctx, b)
                fired = ctx.world.disarm()
                if fired and r[0] != 'ok':
                    if not isinstance(r[1], OSError):
                        ctx.fail('fault', 'a read error in a chunk becomes %s: %s' % (r[0], r[1]))
                    ctx.probe('chunked reading failed and was restarted')
                    b.g = None
                    continue
                check_chunk(ctx, b, r, t)
                continue
            check_chunk(ctx, b, advance(ctx, b), t)
            while op == 'finish' and b.g is not None:
                check_chunk(ctx, b, advance(ctx, b), t)
        elif op == 'other' and others:
            o = others[k % len(others)]
            ctx.call(o.o.seek, 0)
            ctx.call(o.o.read, size)
        elif op == 'again' and blocks and len(blocks) < 12:
            # another reading of the same block
            b = blocks[k % len(blocks)]
            blocks.append(Block(b.o, b.node, b.p))
            ctx.probe('several chunked readings of one block')
        elif op == 'self' and blocks:
            b = blocks[k % len(blocks)]
            ctx.call(b.o.seek, min(k % 50, b.node.size))
            if k % 3:
                ctx.call(b.o.read, size)
        elif op == 'whole':
            if blocks:
                b = blocks[k % len(blocks)]
                r = ctx.call(b.o.parse)
                if r[0] == 'ok':
                    d = diff(b.node.expect, r[1], 'photons')
                    if d:
                        ctx.fail('whole', d)
        elif op == 'fread':
            f.seek(k % max(1, len(t.content)))
            ctx.call(f.read, 5)
