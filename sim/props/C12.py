"""SimTelFile delivers every event once, in order, correctly assembled."""
from .. import gen, simtelgen as G, simtelrun as R
from ..compare import short

ID = 'C12'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one sim_telarray run of the documented structure (random optional blocks, re-uses, monitoring '
        'updates, calibration events, unknown objects), written to one container, read by SimTelFile under short raw reads '
        'and a gzip helper whose progress is scheduled by the simulator; non-trivial if at least two events are delivered')
REAL = ['eventio.simtel.SimTelFile', 'eventio.base', 'all decoders', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, buffer sizes)', 'clock']
ASSUME = ['the file follows the structure documented in SimTelFile',
          'the sign of calibration event ids is not judged (the existing tests pin positive ids, a code comment wants negative ones)']


def make(rng, idx, tier):
    run = G.run_spec(rng)
    if rng.random() < 0.05:
        # the tracking position of a telescope with data was never written
        i = next((i for i, it in enumerate(run['items']) if it['k'] == 'shower'), 10**9)
        arrays = [it['a'] for it in run['items'][i:] if it['k'] == 'array' and it['a']['data']]
        if arrays:
            a = rng.choice(arrays)
            t = rng.choice(a['data'])['tel']
            a['track'] = [x for x in a['track'] if x[0] != t]
            a['bad'] = 1
    return dict(run=run, st=gen.storage_spec(rng), io=gen.io_spec(rng), how=rng.choice(['for', 'next', 'mixed']),
                poke=rng.choice([0, 0, 1, 2, 5]))


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    bad = next((i for i, t in enumerate(tops) if t.kind == 'array' and t.info['bad']), None)
    ref = G.assemble(tops if bad is None else tops[:bad])
    if bad is not None:
        ref.events.pop()
    ctx.key += [plan['run'], st]
    with ctx.open_world(plan['io']):
        f = R.open_simtel(ctx, path, st, R.ALL)
        n = place = 0
        it = iter(f) if plan['how'] == 'for' else f
        while True:
            r = ctx.call(next, it)
            if plan['how'] == 'mixed' and n % 2:
                it = iter(f)
            if r[0] == 'StopIteration':
                break
            if bad is not None and n == len(ref.events):
                if r[0] != 'NoTrackingPositions':
                    ctx.fail('tracking', 'an event without the tracking position of a telescope with data gives %s %s' % (
                        r[0], short(r[1])))
                ctx.probe('missing tracking positions reported')
                ctx.nontrivial = True
                ctx.log('refused after', n)
                return
            if r[0] != 'ok':
                ctx.fail('error', 'event %d of an intact file: %s: %s' % (n, r[0], r[1]))
            if n >= len(ref.events):
                ctx.fail('extra', 'event %d delivered, the file holds %d: %s' % (n, len(ref.events), short(r[1])))
            want = ref.events[n]
            d = R.ev_diff(want, r[1], 'event %d (%s %s)' % (n, want['type'], want['event_id']))
            if d:
                ctx.fail('event', d)
            ctx.probe('%s events' % want['type'])
            for k in ('observation_level_particles', 'photons', 'emitter', 'photoelectrons', 'stereo_reconstruction'):
                if k in want:
                    ctx.probe('events with ' + k)
            n += 1
            r = ctx.call(f.tell)
            if r[0] != 'ok' or isinstance(r[1], bool) or not isinstance(r[1], int) or not place <= r[1] <= len(data):
                ctx.fail('tell', 'tell after %d events gives %s %r, before it was %d' % (n, r[0], r[1], place))
            place = r[1]
            if plan.get('poke') and n % plan['poke'] == 0 and st['fmt'] == 'plain':
                # use of the underlying file in between does not disturb the iteration
                q = n * 7919 * plan['poke'] % (len(data) + 1)
                for args, to in ([q], q), ([len(data) // 2 - q, 1], len(data) // 2), ([0, 2], len(data)), ([q, 0], q):
                    a, b = ctx.call(f.seek, *args), ctx.call(f.tell)
                    if a != ('ok', to) or b != ('ok', to):
                        ctx.fail('seek', 'seek%r gives %s %s, tell then %s %s; expected %d' % (tuple(args), a[0], a[1], b[0], b[1], to))
                ctx.probe('moved the file position between events')
                place = 0
        if n != len(ref.events):
            ctx.fail('missing', '%d events delivered, the file holds %d' % (n, len(ref.events)))
        for _ in range(2):
            r = ctx.call(next, f)
            if r[0] != 'StopIteration':
                ctx.fail('extra', 'after the last event: %s %s' % (r[0], short(r[1])))
        R.check_runlevel(ctx, f, ref, len(plan['run']['tels']))
        w = R.eof_warnings(ctx)
        if w:
            ctx.fail('warning', 'an intact file gives the warning: %s' % w[0].message)
        f.close()
    ctx.nontrivial = n >= 2
    ctx.log('events', n, 'history', len(ref.history), 'unknown', ref.unknown)
