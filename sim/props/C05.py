"""Object contents do not depend on access history (seekable files)."""
from .. import gen, live, low
from ..core import BadPlan

ID = 'C05'
QUICK, THOROUGH = 8000, 500000
RULE = ('one simulated run = one file and one history of next/peek/sub-next/read/seek/tell/parse/raw operations over '
        'all objects obtained so far, on a seekable source with short raw reads; non-trivial if at least two objects '
        'were read or decoded alternately')
REAL = ['eventio.base', 'all parse() methods', 'compiled decoders', 'gzip module', 'corsikaio']
STUB = ['raw file layer (short reads, buffer sizes)']
ASSUME = ['each object has its own cursor that starts where opening the object left it']
WEIGHTS = dict(next=6, peek=1, sub=8, iter=1, read=8, seek=6, tell=2, parse=7, before=1, beyond=1, fread=1, drop=1, show=1)


def make(rng, idx, tier):
    big = rng.random() < 0.1
    return dict(tree=gen.file_spec(rng, 1, 5, rng.choice([1, 2, 3]), rng.choice([0.3, 0.7, 1.0])),
                st=gen.storage_spec(rng, ('plain', 'plain', 'plain', 'gzpy')), io=gen.io_spec(rng, helper=False),
                ops=live.ops(rng, rng.randint(60, 150) if big else rng.randint(4, 60), WEIGHTS))


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    if st['fmt'] not in ('plain', 'gzpy'):
        raise BadPlan('not seekable')
    t = gen.torn_storage(gen.store(data, st), st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan['tree'], plan['ops'], st]
    ctx.prop = ID
    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, st)
        s = live.Session(ctx, f, nodes, t, False)
        s.fmt = st['fmt']
        for op in plan['ops']:
            s.step(op)
        ctx.nontrivial = len(s.live) >= 2 and ctx.stats['probe:reads'] + ctx.stats['probe:decodes'] >= 2
        ctx.log('ops', len(plan['ops']), 'live', len(s.live), 'reads', ctx.stats['probe:reads'], ctx.stats['probe:decodes'])
        s.finish()
        f.close()
