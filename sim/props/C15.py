"""Delivered events never change; monitoring data is as of the event."""
import pickle

from .. import gen, simtelgen as G, simtelrun as R
from ..compare import same, snapshot
from . import C13

ID = 'C15'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one sim_telarray run with frequent monitoring and calibration updates before, between and '
        'after the data of events; every delivered event is compared with the reference at once (monitoring data as of '
        'its array data) and again, for changes, at random later points, after the end and after closing; non-trivial '
        'if a monitoring update follows a delivered event')
REAL = C13.REAL
STUB = C13.STUB[:3]
ASSUME = C13.ASSUME[:1]


def make(rng, idx, tier):
    run = G.run_spec(rng, moni=rng.choice([0.3, 0.6, 0.75]))
    opt = R.ALL if rng.random() < 0.6 else G.options_spec(rng, run['tels'])
    return dict(run=run, opt=opt, st=gen.storage_spec(rng), io=gen.io_spec(rng), look=rng.choice([0.0, 0.3, 1.0]),
                s=rng.randint(0, 10**6), stop=rng.choice([0, 0, 1, 2, 4]))


def execute(plan, ctx):
    import random
    rng = random.Random('look/%s' % plan['s'])
    tops, n_head, nodes, data = G.realize(plan['run'])
    st, opt = plan['st'], plan['opt']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    ctx.key += [plan['run'], st, opt, plan['stop'], plan['s'], plan['look']]
    want = [e for e in G.assemble(tops, opt['tels']).events if G.selected(e, opt)]
    kept = []

    def recheck(when):
        for i, (ev, snap) in enumerate(kept):
            d = same(snap, ev, 'event %d' % i)
            if d:
                ctx.fail('changed', '%s: an event delivered earlier has changed: %s' % (when, d))
            ctx.probe('events inspected again')

    with ctx.open_world(plan['io']):
        f = R.open_simtel(ctx, path, st, opt)
        while True:
            if plan['stop'] and len(kept) >= plan['stop']:
                break
            r = ctx.call(next, f)
            if r[0] == 'StopIteration':
                break
            n = len(kept)
            if r[0] != 'ok' or n >= len(want):
                ctx.fail('events', 'event %d of %d: %s %s' % (n, len(want), r[0], r[1]))
            d = R.ev_diff(want[n], r[1], 'event %d (%s %s)' % (n, want[n]['type'], want[n]['event_id']))
            if d:
                ctx.fail('monitoring' if any(k in d for k in G.MONI.values()) else 'events', d)
            kept.append((r[1], snapshot(r[1])))
            if rng.random() < plan['look']:
                recheck('after %d events' % len(kept))
        recheck('at the end')
        f.close()
        recheck('after closing')
        del f, r
        recheck('after dropping the reader')
        # as for another process
        for i, (ev, snap) in enumerate(kept[:4]):
            r = ctx.call(lambda: pickle.loads(pickle.dumps(ev)))
            d = same(snap, r[1], 'pickled event %d' % i) if r[0] == 'ok' else '%s: %s' % r
            if d:
                ctx.fail('pickle', 'a pickled copy of event %d: %s' % (i, d))
    moni = [i for i, t in enumerate(tops) if t.kind in G.MONI and t.node.addr > 0]
    arrays = [i for i, t in enumerate(tops) if t.kind in ('array', 'calib', 'calarray')]
    ctx.nontrivial = bool(kept and arrays and moni and max(moni) > min(arrays))
    ctx.log('events', len(kept))
