"""Event selection equals filtering the full reading."""
from .. import gen, simtelgen as G, simtelrun as R
from . import C13

ID = 'C14'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one sim_telarray run, intact or torn at one byte, read with one combination of '
        'skip_non_triggered, skip_calibration and allowed_telescopes under short raw reads and a scheduled gzip helper; '
        'the result is compared with the filtered reference reading; non-trivial if an option changes the result')
REAL = C13.REAL
STUB = C13.STUB
ASSUME = C13.ASSUME + ['an event none of whose telescopes with data is allowed is reduced to its trigger information']


def make(rng, idx, tier):
    run = G.run_spec(rng)
    return dict(run=run, opt=G.options_spec(rng, run['tels']), st=gen.storage_spec(rng), io=gen.io_spec(rng),
                cut=C13.cut(rng) if rng.random() < 0.35 else None)


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    if plan['cut']:
        t = C13.tear(plan, tops, n_head, nodes, data)
        ctx.stats['fault:torn_file'] += 1
    else:
        t = gen.torn_storage(gen.store(data, plan['st']), plan['st'])
    path = ctx.write('f' + gen.SUFFIX[plan['st']['fmt']], t.stored)
    ctx.key += [plan['run'], plan['st'], plan['cut'], plan['opt']]
    with ctx.open_world(plan['io']):
        got = R.read_torn(ctx, plan, tops, n_head, t, path, plan['opt'])
    if got is not None:
        full = G.assemble(tops)
        kept = [e for e in G.assemble(tops, plan['opt']['tels']).events if G.selected(e, plan['opt'])]
        ctx.nontrivial = len(kept) < len(full.events) or plan['opt']['tels'] is not None and bool(kept)
        ctx.log('options', plan['opt'], 'events', len(got), 'of', len(full.events))
