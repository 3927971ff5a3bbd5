"""A torn simulation file yields a prefix of its events, with a warning."""
from .. import gen, simtelgen as G, simtelrun as R

ID = 'C13'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one sim_telarray run of the documented structure whose producer crashes at one byte (in the '
        'stored file or in the compressed stream), read to the end by SimTelFile under short raw reads and a scheduled '
        'gzip helper; non-trivial if the cut is behind the run header block')
REAL = ['eventio.simtel.SimTelFile', 'eventio.base', 'all decoders', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, buffer sizes)', 'clock', 'the crashed producer']
ASSUME = ['the file follows the structure documented in SimTelFile',
          'an object whose missing bytes its decoder never looks at (padding) may count as complete']


def cut(rng):
    c = gen.cut_spec(rng)
    c['late'] = int(rng.random() < 0.75)
    return c


def make(rng, idx, tier):
    return dict(run=G.run_spec(rng), st=gen.storage_spec(rng), io=gen.io_spec(rng), cut=cut(rng))


def tear(plan, tops, n_head, nodes, data):
    """mostly behind the run header block, where most objects are"""
    c = plan['cut']
    if c['late'] and c['where'] == 'content' and len(nodes) > n_head:
        h = nodes[n_head].hdr_start
        if c['mode'] == 'abs':
            c = dict(c, at=(h + c['at'] * (len(data) - h) // 10**6) * 10**6 // len(data))
            return gen.torn(data, nodes, plan['st'], c)
        return gen.torn(data, nodes[n_head:], plan['st'], c)
    return gen.torn(data, nodes, plan['st'], c)


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    t = tear(plan, tops, n_head, nodes, data)
    path = ctx.write('f' + gen.SUFFIX[plan['st']['fmt']], t.stored)
    ctx.key += [plan['run'], plan['st'], plan['cut']]
    ctx.stats['fault:torn_file'] += 1
    with ctx.open_world(plan['io']):
        got = R.read_torn(ctx, plan, tops, n_head, t, path, R.ALL)
    ctx.nontrivial = got is not None
    ctx.log('cut', len(t.content), 'of', len(data), 'events', None if got is None else len(got))
