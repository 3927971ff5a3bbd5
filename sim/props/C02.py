"""A torn file yields its complete prefix, then a truncation error."""
import random

from .. import gen, low
from ..core import BadPlan

ID = 'C02'
QUICK, THOROUGH = 10000, 400000
RULE = ('one simulated run = one generated file, one storage container, one crash point (byte position in the content '
        'or in the stored stream) and one byte-delivery schedule; non-trivial if at least one object survives and the '
        'cut removes at least one byte')
REAL = ['eventio.base', 'eventio.header (compiled)', 'eventio.file_types', 'zlib', 'gzip module', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['a torn file is a prefix of the stored bytes or of the uncompressed content (later bytes lost, earlier intact)',
          'what zlib/zstandard can decode from a torn stream defines what survived']


def make(rng, idx, tier):
    plan = dict(tree=gen.file_spec(rng, 1, rng.choice([1, 4, 8]), depth=rng.choice([0, 1, 3]),
                                   p_known=rng.choice([0.0, 0.5, 0.9])),
                st=gen.storage_spec(rng, ('plain', 'plain', 'gz', 'gz', 'zst', 'zst', 'gzpy')),
                cut=gen.cut_spec(rng), io=gen.io_spec(rng), seed=rng.randint(0, 10**9), again=rng.randint(1, 4),
                p_read=rng.choice([0.0, 0.0, 0.5, 1.0]))
    if rng.random() < 0.04:
        gen.large_case(rng, plan)
    return plan


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut'])
    stored, content, complete = t.stored, t.content, t.complete
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], stored)
    alive = low.survivors(nodes, len(content))
    boundary = len(content) in [0] + [n.end for n in nodes]
    n_low = len(low.survivors(nodes, t.low))
    ctx.nontrivial = bool(alive) and len(content) < len(data)
    ctx.key += [st, plan['tree'], len(stored)]
    ctx.stats['fault:cut_' + ('stored' if not complete else 'content')] += len(content) < len(data)
    ctx.probe('cut on object boundary', boundary and 0 < len(content) < len(data))
    if alive and not boundary:
        last = alive[-1]
        ctx.probe('cut in header' if last.end <= len(content) else 'cut in payload')
    rng = random.Random('walk/%s' % plan['seed'])
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        got = 0
        while True:
            r = ctx.call(next, f)
            if r[0] != 'ok':
                break
            if got >= len(alive):
                ctx.fail('extra', 'delivers object %d %r although only %d headers survived in %d of %d bytes' % (
                    got, r[1], len(alive), len(content), len(data)))
            node = alive[got]
            low.check_header(ctx, r[1], node, 'object %d' % got)
            if rng.random() < plan['p_read']:
                if node.end <= t.low:
                    if node.children is not None:
                        low.walk(ctx, r[1], node.children, content, rng, 'object %d' % got)
                    else:
                        low.read_some(ctx, r[1], node, content, rng, 'object %d' % got)
                elif node.children is not None and node.end > len(content):
                    torn_container(ctx, r[1], node, t, 'object %d' % got)
            got += 1
        ctx.log('delivered', got, 'of', len(alive), 'end', r[0])
        if got < n_low:
            ctx.fail('lost', 'only %d of %d surviving objects delivered, then %s: %s' % (got, len(alive), r[0], r[1]))
        clean = boundary and complete
        if clean and r[0] != 'StopIteration':
            ctx.fail('end', 'file cut on an object boundary ends with %s: %s' % (r[0], r[1]))
        if not clean and r[0] not in t.eof:
            msg = 'file cut at content byte %d of %d (%s) ends with %s instead of EOFError' % (
                len(content), len(data), 'stream incomplete' if not complete else 'inside an object', r[0])
            if (st['fmt'] == 'zst' and not complete and r[0] == 'StopIteration'
                    and t.low <= (nodes[got - 1].end if got else 0) <= len(content)):
                ctx.finding(ID, 'zstd-torn-at-block-boundary', 'end', msg)
            else:
                ctx.fail('end', msg)
        for _ in range(plan['again']):
            r2 = ctx.call(next, f)
            if r2[0] == 'ok':
                ctx.fail('resurrected', 'another object %r after the end was reported as %s' % (r2[1], r[0]))
        f.close()


def torn_container(ctx, o, node, t, where):
    limit = len(t.content)
    alive = low.survivors(node.children, limit)
    for i in range(len(node.children) + 2):
        r = ctx.call(next, o)
        if r[0] != 'ok':
            break
        if i >= len(alive):
            ctx.fail('extra', '%s: torn container delivers child %d, only %d headers survived' % (where, i, len(alive)))
        low.check_header(ctx, r[1], alive[i], '%s[%d]' % (where, i))
        if alive[i].children is not None and alive[i].end > limit:
            torn_container(ctx, r[1], alive[i], t, '%s[%d]' % (where, i))
    ctx.probe('torn container iterated')
    if i < len(low.survivors(node.children, t.low)):
        ctx.fail('lost', '%s: torn container delivers %d of %d surviving children, then %s' % (where, i, len(alive), r[0]))
    if len(alive) < len(node.children) and r[0] not in t.eof:
        ctx.fail('end', '%s: torn container with %d of %d children ends with %s' % (
            where, len(alive), len(node.children), r[0]))
    if r[0] not in t.eof + ('StopIteration',):
        ctx.fail('end', '%s: torn container ends with %s: %s' % (where, r[0], r[1]))
