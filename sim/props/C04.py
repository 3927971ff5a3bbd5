"""Records durable before a crash decode to exactly the values written."""
import random

from .. import gen, low, objs
from ..core import BadPlan

ID = 'C04'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one file of generated records (every record kind is the focus in turn, with all its '
        'versions), stored in one container, torn at one point (or complete); everything that survived completely is '
        'decoded and compared field by field; non-trivial if at least one record with a decoder was compared')
REAL = ['eventio.base', 'all parse() methods', 'compiled varint/section decoders', 'corsikaio', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['sim/objs.py states the stored format of every record kind independently of eventio',
          'corsikaio interprets CORSIKA header blocks correctly']


def make(rng, idx, tier):
    kinds = sorted(objs.BUILDERS)
    kind = kinds[idx % len(kinds)]
    vs = objs.BUILDERS[kind][1]
    n = rng.randint(1, 4)
    focus = [dict(gen.rec_spec(rng, kind), v=vs[(idx // len(kinds) + j) % len(vs)]) for j in range(n)]
    tree = []
    for f in focus:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            c = gen.cont_spec(rng, 0, 0)
            c['c'] = [gen.tree_spec(rng, 0) for _ in range(rng.randint(0, 1))] + [f] + [
                gen.tree_spec(rng, 0) for _ in range(rng.randint(0, 1))]
            f = c
        tree.append(f)
        if rng.random() < 0.3:
            tree.append(gen.tree_spec(rng, 1, 0.8))
    cut = gen.cut_spec(rng) if rng.random() < 0.6 else None
    if cut and rng.random() < 0.7:
        cut.update(mode='obj', part='last', where='content', top=1, i=0, off=rng.randint(0, 10**6))
    return dict(tree=tree, cut=cut, st=gen.storage_spec(rng, ('plain', 'plain', 'gz', 'zst', 'gzpy')),
                io=gen.io_spec(rng), seed=rng.randint(0, 10**9), order=rng.choice(['forward', 'forward', 'late', 'shuffled']))


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    if plan['cut']:
        t = gen.torn(data, nodes, st, plan['cut'])
        ctx.stats['fault:cut'] += len(t.content) < len(data)
    else:
        t = gen.torn_storage(gen.store(data, st), st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan['tree'], st, plan['order'], len(t.content)]
    rng = random.Random('c04/%s' % plan['seed'])
    order = plan['order'] if st['fmt'] in ('plain', 'gzpy') and t.complete else 'forward'
    held = []
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        walk(ctx, f, nodes, t, rng, 'file', order, held)
        if order == 'shuffled':
            rng.shuffle(held)
        for o, node, at in held:
            low.decode(ctx, o, node, at)
        ctx.call(f.close)
    ctx.nontrivial = any(k.startswith('probe:decoded') for k in ctx.stats)
    ctx.log('decoded', len(t.content), len(data), order)


def walk(ctx, it, nodes, t, rng, where, order, held):
    for i, node in enumerate(nodes):
        at = '%s[%d]' % (where, i)
        if node.addr + min(node.fixed, node.size) > t.low:
            return
        r = ctx.call(next, it)
        if r[0] != 'ok':
            ctx.fail('lost', '%s: not delivered although it survived: %s: %s' % (at, r[0], r[1]))
        o = r[1]
        low.check_header(ctx, o, node, at)
        if node.end <= t.low:
            if order == 'forward':
                low.decode(ctx, o, node, at)
            else:
                held.append((o, node, at))
        if node.children is not None:
            walk(ctx, o, node.children, t, rng, at, order, held)
