"""IACTFile delivers every use of every shower exactly once."""
import pickle

from .. import gen, iactgen as G
from ..compare import diff, same, short, snapshot
from ..core import BadPlan

ID = 'C16'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one CORSIKA/IACT file (normal or split mode, several showers and uses) and one history of new '
        'iterations, partial iterations, peeks, direct low-level reads and full iterations under short raw reads and a '
        'scheduled gzip helper; every delivered event is compared completely; non-trivial if two events are delivered')
REAL = ['eventio.IACTFile', 'eventio.base', 'all decoders', 'corsikaio', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, buffer sizes)', 'clock']
ASSUME = ['the file follows the structure documented in IACTFile',
          'only the newest iteration over a file is judged, and none after direct low-level reads except a new one']


def make(rng, idx, tier):
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 12])):
        ops.append(rng.choice([['iter'], ['next', rng.choice([1, 1, 2, 5])], ['peek', rng.choice([0, 0, 1])], ['peek', 0],
                               ['low', rng.choice([1, 2, 7])], ['full'], ['raw', rng.randint(0, 10**6)]]))
    ops.append(['full'])
    return dict(run=G.run_spec(rng), st=gen.storage_spec(rng), io=gen.io_spec(rng), ops=ops)


def ev_diff(want, got, name):
    return diff(want, got, name)


def head_diff(ref, f):
    for name, want, got in [('header', ref.header, f.header), ('input_card', ref.input_card, f.input_card),
                            ('atmospheric_profile', ref.profile, f.atmospheric_profile),
                            ('n_telescopes', ref.n_telescopes, f.n_telescopes),
                            ('telescope_positions', ref.positions, f.telescope_positions)]:
        d = diff(want, got, name)
        if d:
            return d


def open_iact(ctx, path, st):
    from eventio import IACTFile
    return IACTFile(path, zcat=st['fmt'] != 'gzpy')


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    st = plan['st']
    seekable = st['fmt'] in ('plain', 'gzpy')
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    ref = G.assemble(tops)
    ctx.key += [plan['run'], st, plan['ops']]
    kept = []
    with ctx.open_world(plan['io']):
        f = open_iact(ctx, path, st)
        d = head_diff(ref, f)
        if d:
            ctx.fail('header', d)
        it, n = None, 0         # the newest iteration and how many events it has delivered
        touched = False         # forward-only source: something behind the header was consumed
        total = 0

        def advance():
            """one step of the newest iteration: True if an event came"""
            nonlocal n, total, touched, it
            r = ctx.call(next, it)
            if r[0] == 'StopIteration':
                if n != len(ref.events):
                    ctx.fail('missing', 'iteration ends after %d of %d events' % (n, len(ref.events)))
                d = diff(ref.run_end, f.run_end, 'run_end')
                if d:
                    ctx.fail('run_end', d)
                it = None
                return False
            if r[0] != 'ok':
                if first_forward and isinstance(r[1], OSError) and n == 0:
                    ctx.probe('restart refused on a forward-only source')
                    it = None
                    return False
                ctx.fail('error', 'event %d of %d: %s: %s' % (n, len(ref.events), r[0], r[1]))
            if n >= len(ref.events):
                ctx.fail('extra', 'event %d delivered, the file holds %d' % (n, len(ref.events)))
            d = ev_diff(ref.events[n], r[1], 'event %d (shower %s use %s)' % (
                n, ref.events[n]['event_number'], ref.events[n]['reuse']))
            if d:
                ctx.fail('event', d)
            if len(kept) < 8:
                kept.append((r[1], snapshot(r[1])))
            n += 1
            total += 1
            return True

        for op in plan['ops']:
            if op[0] in ('iter', 'full') or op[0] == 'next' and it is None:
                if op[0] != 'next' or it is None:
                    first_forward = touched and not seekable
                    it, n = iter(f), 0
                    if op[0] == 'iter':
                        ctx.probe('new iterations')
            if op[0] == 'next' or op[0] == 'full':
                k = 0
                touched = True
                while it is not None and (op[0] == 'full' or k < op[1]):
                    k += 1
                    if not advance():
                        break
            elif op[0] == 'peek':
                r = ctx.call(f.peek)
                if r[0] != 'ok':
                    if not seekable and touched:
                        continue
                    ctx.fail('peek', 'peek: %s %s' % (r[0], r[1]))
                ctx.probe('peeks')
                if op[1] and r[1] is not None and seekable and not r[1].only_subobjects:
                    ctx.call(r[1].parse)
            elif op[0] == 'low':
                for _ in range(op[1]):
                    if ctx.call(next, f)[0] != 'ok':
                        break
                it, touched = None, True
            elif op[0] == 'raw' and seekable:
                f.seek(op[1] % max(1, len(data)))
                f.read(13)
        for i, (ev, snap) in enumerate(kept):
            d = same(snap, ev, 'event %d' % i)
            if d:
                ctx.fail('changed', 'an event delivered earlier has changed: %s' % d)
            # as for another process, or for a log
            r = ctx.call(lambda: pickle.loads(pickle.dumps(ev)))
            if r[0] != 'ok' or type(r[1]) is not type(ev):
                ctx.fail('pickle', 'event %d: a pickled copy gives %s: %s' % (i, r[0], short(r[1])))
            d = same(snap, r[1], 'pickled event %d' % i)
            if d:
                ctx.fail('pickle', d)
            r = ctx.call(lambda: (repr(ev), str(ev)))
            if r[0] != 'ok' or str(ev.event_number) not in r[1][0]:
                ctx.fail('repr', 'event %d: repr gives %s: %s' % (i, r[0], short(r[1])))
        f.close()
    ctx.nontrivial = total >= 2
    ctx.log('events', total)
