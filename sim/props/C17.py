"""A torn CORSIKA file yields only complete showers, then EOFError."""
from .. import gen, iactgen as G, simtelrun as R
from ..compare import short
from . import C13, C16

ID = 'C17'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one CORSIKA/IACT file whose producer crashes at one byte (in the stored file or in the '
        'compressed stream), iterated to the end under short raw reads and a scheduled gzip helper; non-trivial if the cut '
        'is behind the header block')
REAL = C16.REAL
STUB = C16.STUB + ['the crashed producer']
ASSUME = ['the file follows the structure documented in IACTFile',
          'an object whose missing bytes its decoder never looks at (padding) may count as complete']


def make(rng, idx, tier):
    return dict(run=G.run_spec(rng), st=gen.storage_spec(rng), io=gen.io_spec(rng), cut=C13.cut(rng),
                peek=int(rng.random() < 0.2))


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    t = C13.tear(plan, tops, n_head, nodes, data)
    path = ctx.write('f' + gen.SUFFIX[plan['st']['fmt']], t.stored)
    ctx.key += [plan['run'], plan['st'], plan['cut']]
    ctx.stats['fault:torn_file'] += 1
    ks = R.candidates(tops, t)
    where = 'torn at %d of %d bytes' % (len(t.content), len(data))
    with ctx.open_world(plan['io']):
        r = ctx.call(C16.open_iact, ctx, path, plan['st'])
        if r[0] != 'ok':
            if min(ks) >= n_head:
                ctx.fail('open', '%s: the header block survived, but opening raises %s: %s' % (where, r[0], r[1]))
            if r[0] not in t.eof + (('ValueError',) if t.low < 4 else ()):
                ctx.fail('open-error', '%s, within the header block: opening raises %s: %s, not EOFError' % (where, r[0], r[1]))
            ctx.probe('torn header block refused')
            ctx.log('refused')
            return
        f = r[1]
        if max(ks) < n_head:
            ctx.fail('open', '%s, within the header block, but it can be opened' % where)
        ks = [k for k in ks if k >= n_head]
        d = C16.head_diff(G.assemble(tops[:n_head]), f)
        if d:
            ctx.fail('header', d)
        if plan['peek']:
            ctx.call(f.peek)
        refs = [G.assemble(tops[:k]).events for k in ks]
        want = max(refs, key=len)
        allowed = {len(x) for x in refs}
        it = iter(f)
        n = 0
        while True:
            r = ctx.call(next, it)
            if r[0] != 'ok':
                break
            if n >= len(want):
                ctx.fail('extra', '%s: event %d delivered, only %d are complete: %s' % (where, n, len(want), short(r[1])))
            d = C16.ev_diff(want[n], r[1], 'event %d' % n)
            if d:
                ctx.fail('event', '%s: %s' % (where, d))
            n += 1
        if n not in allowed:
            ctx.fail('missing', '%s: %s after %d events, expected %s' % (where, r[0], n, sorted(allowed)))
        if r[0] == 'StopIteration':
            if len(tops) not in ks:
                ctx.fail('silent', '%s: iteration ends cleanly after %d events' % (where, n))
        elif r[0] not in t.eof:
            ctx.fail('error', '%s: iteration ends with %s: %s' % (where, r[0], r[1]))
        elif len(tops) in ks and min(ks) == len(tops) and t.complete:
            ctx.fail('error', 'a complete file ends with %s: %s' % (r[0], r[1]))
        f.close()
    ctx.nontrivial = True
    ctx.log('cut', len(t.content), 'of', len(data), 'events', n)
