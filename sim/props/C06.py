"""Forward-only sources refuse to go back and never return misplaced bytes."""
from .. import gen, live, low
from ..core import BadPlan

ID = 'C06'
QUICK, THOROUGH = 8000, 500000
RULE = ('one simulated run = one file behind a forward-only source (gzip helper pipe or zstd stream) with a seeded byte delivery '
        'and one history of next/peek/sub-next/read/seek/tell/parse operations over all objects obtained so far, in some runs '
        'with read errors or interrupts at chosen raw reads; non-trivial if at least two objects were read or decoded')
REAL = ['eventio.base', 'all parse() methods', 'compiled decoders', 'gzip module', 'corsikaio']
STUB = ['gzip helper process and its pipe (seeded delivery)', 'raw file layer (short reads, errors)']
ASSUME = ['each object has its own cursor that starts where opening the object left it']
WEIGHTS = dict(next=6, peek=1, sub=8, iter=1, read=8, seek=6, tell=2, parse=7, before=1, beyond=1, fread=1, drop=1, show=1)


FAULTS = [['EIO', 0], ['EIO', 1], ['EIO', 2], ['KI', 0], ['KI', 1], ['KI', 3]]


def make(rng, idx, tier):
    big = rng.random() < 0.1
    ops = live.ops(rng, rng.randint(60, 150) if big else rng.randint(4, 60), WEIGHTS)
    if rng.random() < 0.3:
        for op in ops:
            if op[0] in ('next', 'sub', 'read', 'seek', 'parse', 'peek') and rng.random() < 0.1:
                op.append(rng.choice(FAULTS))
    return dict(tree=gen.file_spec(rng, 1, 5, rng.choice([1, 2, 3]), rng.choice([0.3, 0.7, 1.0])),
                st=gen.storage_spec(rng, ('gz', 'zst')), io=gen.io_spec(rng), ops=ops)


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    if st['fmt'] not in ('gz', 'zst'):
        raise BadPlan('seekable')
    t = gen.torn_storage(gen.store(data, st), st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan['tree'], plan['ops'], st]
    ctx.prop = ID
    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, st)
        s = live.Session(ctx, f, nodes, t, True)
        for op in plan['ops']:
            if isinstance(op[-1], list):
                s.fault = op[-1]
                op = op[:-1]
            s.step(op)
            s.fault = None
        ctx.nontrivial = len(s.live) >= 2 and ctx.stats['probe:reads'] + ctx.stats['probe:decodes'] >= 2
        ctx.log('ops', len(plan['ops']), 'live', len(s.live), 'reads', ctx.stats['probe:reads'], ctx.stats['probe:decodes'])
        s.finish()
        f.close()
