"""A file that is still being written is read exactly up to what is there."""
from .. import gen, iactgen, live, low, simtelgen, simtelrun as R
from ..compare import short
from ..core import BadPlan
from ..world import real_open
from . import C16

ID = 'C27'
QUICK, THOROUGH = 6000, 400000
RULE = ('one simulated run = one uncompressed file that a producer appends to, piece by piece (pieces end at object boundaries, a '
        'few bytes next to them or anywhere), while one reader works on it; the pieces arrive between operations and at chosen raw '
        'reads and seeks inside them, in the order the plan says; the reader is a history of low-level operations, SimTelFile '
        'or repeated iterations over an IACTFile; non-trivial if an operation found the file too short and a later one succeeded')
REAL = ['eventio.base', 'SimTelFile', 'IACTFile', 'all decoders', 'io.BufferedReader', 'the file system (a real file grows)']
STUB = ['the producer process', 'raw file layer (short reads, buffer sizes, points at which the file grows)', 'clock']
ASSUME = ['uncompressed files that only grow (nothing written is changed)',
          'an object whose missing bytes its decoder never looks at (padding) may count as complete']
WEIGHTS = dict(next=8, sub=6, read=8, seek=3, tell=1, parse=8, fread=1, iter=1, peek=3, before=1, beyond=1, show=1)


def piece(rng):
    r = rng.random()
    if r < 0.35:
        return ['o', 0]
    if r < 0.7:
        return ['o', rng.choice([-1, 1, 2, 3, 4, 8, 12, 15, 16, 17, 20, -4])]
    if r < 0.97:
        return ['b', rng.choice([1, 2, 4, 8, 16, 100, 1000, rng.randint(1, 5000)])]
    return ['all']


def grow(rng, n, p):
    """step -> [raw I/O point within the step or -1 for before it, piece]"""
    return [[i, rng.choice([-1, -1, 0, 1, 1, 2, 2, 3, 4, 5, 8]), piece(rng)] for i in range(n) if rng.random() < p]


def make(rng, idx, tier):
    io = dict(gen.io_spec(rng, helper=False), buf=rng.choice([1, 3, 16, 64, 512, 8192, None]))
    start = rng.choice([['b', 0], ['b', rng.randint(1, 20)], ['f', rng.random()], ['f', rng.random()], ['o', 0]])
    k = ('low', 'low', 'simtel', 'iact')[idx % 4]
    if k == 'low':
        ops = live.ops(rng, rng.randint(8, 60), WEIGHTS)
        return dict(k=k, tree=gen.file_spec(rng, 1, 7, rng.choice([0, 1, 2]), rng.choice([0.2, 0.6, 1.0])), io=io, ops=ops,
                    start=start, grow=grow(rng, len(ops), rng.choice([0.2, 0.5])), drain=[piece(rng) for _ in range(5)])
    run = simtelgen.run_spec(rng) if k == 'simtel' else iactgen.run_spec(rng)
    if k == 'simtel':
        start = rng.choice([start, ['h', rng.choice([-2, -1, 0, 0, 0, 0, 1, 2, 20])]])
    n = rng.choice([5, 20, 60])
    return dict(k=k, run=run, io=io, start=start, grow=grow(rng, n, rng.choice([0.3, 0.7, 1.0])),
                drain=[piece(rng) for _ in range(5)])


class Producer:
    """appends to the file; `length` is what a reader can see"""

    def __init__(self, ctx, data, tree, head=0):
        self.ctx, self.data, self.length, self.head = ctx, data, 0, head
        b = set()

        def add(nodes):
            for n in nodes:
                b.update([n.hdr_start, n.addr, n.end])
                if n.children is not None:
                    add(n.children)
        add(tree)
        self.bounds = sorted(b)
        self.path = ctx.write('f.dat', b'')
        self.pending, self.after = None, 0

    def more(self, p):
        if p[0] == 'all':
            to = len(self.data)
        elif p[0] == 'f':
            to = int(p[1] * len(self.data))
        elif p[0] == 'h':
            to = self.head + p[1]
        elif p[0] == 'o':
            to = next((x for x in self.bounds if x > self.length), len(self.data)) + p[1]
            if to <= self.length:
                to += 4
        else:
            to = self.length + p[1]
        to = max(self.length, min(to, len(self.data)))
        if to > self.length:
            with real_open(self.path, 'ab', buffering=0) as f:
                f.write(self.data[self.length:to])
            self.length = to
            self.ctx.stats['fault:file_grows'] += 1

    def plan(self, g):
        """g: [point, piece]"""
        if g[0] < 0:
            self.more(g[1])
        else:
            self.after, self.pending = g[0], g[1]

    def hook(self, what):
        if self.pending is None or what not in ('read', 'seek'):
            return
        if self.after > 0:
            self.after -= 1
            return
        p, self.pending = self.pending, None
        n = self.length
        self.more(p)
        if self.length > n:
            self.ctx.stats['fault:file_grows_within_an_operation'] += 1


class Session(live.Session):
    prod = None
    announced = False
    short = 0            # operations that found the file too short
    later = 0            # of those after which the same thing succeeded

    def do(self, start, end, fn, *a):
        ctx, p = self.ctx, self.prod
        n_warn = len(ctx.warnings)
        L0 = p.length
        r = ctx.call(fn, *a)
        L1 = p.length
        p.pending = None
        at_end = L0 <= start <= L1            # the file may have looked complete
        if fn == self.f.peek and r == ('ok', None):
            warned = len(ctx.warnings) > n_warn
            if self.announced:
                return 'refused', None
            if warned and L0 < end and not L0 == L1 == start:
                self.announced = True
            elif warned:
                ctx.fail('peek', 'peek announces an error, the file has %d..%d bytes, the object is at %d to %s' % (L0, L1, start, end))
            elif not at_end:
                ctx.fail('peek', 'peek gives None without a warning, the file has %d..%d bytes, the object is at %d to %s' % (
                    L0, L1, start, end))
            self.short += 1
            return 'refused', None
        if r[0] == 'EOFError' and fn == next and a[0] is self.f and self.announced:
            self.announced = False
            self.short += 1
            return 'refused', r[1]
        if fn == next and a[0] is self.f:
            self.announced = False
            if r[0] == 'StopIteration' and at_end:
                ctx.probe('clean end at the place reached so far')
                self.short += 1
                return 'refused', r[1]
            if r[0] == 'StopIteration':
                ctx.fail('end', 'next ends cleanly, the file has %d..%d bytes, the next object starts at %d' % (L0, L1, start))
            if r[0] == 'EOFError' and L0 == L1 == start:
                ctx.fail('end', 'next gives EOFError although the file ends exactly on an object boundary')
        if r[0] == 'EOFError' and L0 < end:
            self.short += 1
            ctx.probe('too short: ' + getattr(fn, '__name__', 'next'))
            return 'refused', r[1]
        if r[0] == 'ok' and self.short and end > start:
            self.later += 1
        return r

    def op_next(self):
        if self.peeked is None and self.i >= len(self.alive):
            at = self.alive[-1].end
            r = self.do(at, float('inf'), next, self.f)
            if r[0] == 'ok':
                self.ctx.fail('extra', 'another object %r after the last one' % (r[1],))
            if r[0] != 'refused':
                self.ctx.fail('end', 'after the last object: %s: %s' % r)
            return type(r[1]).__name__
        return super().op_next()

    def op_peek(self):
        if self.peeked is None and self.i >= len(self.alive):
            r = self.do(self.alive[-1].end, float('inf'), self.f.peek)
            if r[0] != 'refused':
                self.ctx.fail('peek', 'peek after the last object gives %s %s' % (r[0], short(r[1])))
            return
        return super().op_peek()

    def op_read(self, k, n):
        p = self.pick(k)
        before = p and p.pos
        r = super().op_read(k, n)
        if r == 'refused' and p.pos != before:
            self.ctx.fail('cursor', '%s: a read that found the file too short moved the cursor from %r to %r' % (p.at, before, p.pos))
        return r

    def op_fread(self, pos, n):
        t = self.t
        self.prod.pending = None
        self.t = gen.Torn(t.stored, t.content[:self.prod.length], self.prod.length, True)
        try:
            return super().op_fread(pos, n)
        finally:
            self.t = t


def execute_low(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    prod = Producer(ctx, data, nodes)
    prod.more(plan['start'])
    t = gen.Torn(data, data, len(data), True)
    by = {}
    for i, at, p in plan['grow']:
        by.setdefault(i, [at, p])
    drain = plan['drain'] or [['all']]
    n = 0

    def more():
        nonlocal n
        prod.more(drain[n % len(drain)] if n < 200 else ['all'])
        n += 1
    with ctx.open_world(plan['io'], budget=3000000):
        ctx.world.yield_hook = prod.hook
        while True:
            L0 = prod.length
            r = ctx.call(low.open_low, ctx, prod.path, dict(fmt='plain'))
            if r[0] == 'ok':
                break
            if L0 >= 4 or r[0] not in ('ValueError', 'EOFError'):
                ctx.fail('open', 'opening a file with %d bytes so far: %s: %s' % (L0, r[0], r[1]))
            ctx.probe('opened too early')
            more()
        s = Session(ctx, r[1], nodes, t, False)
        s.prod = prod
        for i, op in enumerate(plan['ops']):
            if i in by:
                prod.plan(by[i])
            s.step(op)
            prod.pending = None
        # the producer finishes; everything must come out in the end
        while True:
            r = s.op_next()
            if r == 'StopIteration' and prod.length == len(data) and s.i >= len(nodes):
                break
            if r != 'ok':
                if prod.length == len(data) and not s.announced and n > 1000:
                    ctx.fail('stuck', 'the file is complete, but next gives %s' % r)
                more()
        for k in range(len(s.live)):
            p = s.live[k]
            j = len(s.live) - 1 - k
            if p.node.children is not None:
                while p.sub < len(p.node.children):
                    before = p.sub
                    j = [x for x in reversed(s.live) if x.node.children is not None].index(p)
                    s.op_sub(j)
                    if p.sub == before:
                        ctx.fail('stuck', '%s: the file is complete, but child %d is not delivered' % (p.at, before))
            else:
                j = len(s.live) - 1 - s.live.index(p)
                if s.op_parse(j) == 'refused':
                    ctx.fail('stuck', '%s: the file is complete, but the object cannot be decoded' % p.at)
        s.finish()
        ctx.log('ops', len(plan['ops']), 'short', s.short, 'later', s.later)
        ctx.nontrivial = s.short > 0 and s.later > 0
        r[1].close() if hasattr(r, 'close') else s.f.close()


def prefix_range(tops, lo, hi):
    """numbers of objects that may count as complete while the file has lo..hi bytes"""
    a = b = 0
    while a < len(tops) and tops[a].node.end <= lo:
        a += 1
    while b < len(tops) and tops[b].node.end <= hi:
        b += 1
    if b < len(tops) and tops[b].node.addr <= hi:
        b += 1
    return range(a, b + 1)


def boundary(tops, lo, hi):
    return any(lo <= x <= hi for x in [0] + [x.node.end for x in tops])


def open_growing(plan, ctx, prod, tops, n_head, opener, more):
    while True:
        L0 = prod.length
        r = ctx.call(opener)
        L1 = prod.length
        if r[0] == 'ok':
            if max(prefix_range(tops, L0, L1)) < n_head:
                ctx.fail('open', 'the header block is not complete (%d bytes so far), but the file can be opened' % L1)
            return r[1]
        if min(prefix_range(tops, L0, L1)) >= n_head:
            ctx.fail('open', 'the header block is there (%d bytes so far), but opening raises %s: %s' % (L0, r[0], r[1]))
        if r[0] != 'EOFError' and not (r[0] == 'ValueError' and L0 < 4):
            ctx.fail('open-error', '%d bytes of the header block are there: opening raises %s: %s, not EOFError' % (L0, r[0], r[1]))
        ctx.probe('opened too early')
        more()


def execute_simtel(plan, ctx):
    tops, n_head, nodes, data = simtelgen.realize(plan['run'])
    if any(t.kind == 'array' and t.info['bad'] for t in tops):
        raise BadPlan('no tracking positions')
    prod = Producer(ctx, data, nodes, tops[n_head - 1].node.end)
    prod.more(plan['start'])
    drain, n_drain = plan['drain'] or [['all']], 0

    def more():
        nonlocal n_drain
        prod.more(drain[n_drain % len(drain)] if n_drain < 200 else ['all'])
        n_drain += 1
    by = {}
    for i, at, p in plan['grow']:
        by.setdefault(i, [at, p])
    final = [e for e in simtelgen.assemble(tops, None).events]
    with ctx.open_world(plan['io'], budget=3000000):
        ctx.world.yield_hook = prod.hook
        opened_at = prod.length
        f = open_growing(plan, ctx, prod, tops, n_head, lambda: R.open_simtel(ctx, prod.path, dict(fmt='plain'), R.ALL), more)
        since = len(ctx.warnings)
        got, lens = [], []
        while True:
            if len(lens) in by:
                prod.plan(by[len(lens)])
            elif len(lens) > 60 and not prod.length == len(data):
                prod.more(drain[len(lens) % len(drain)])
            lens.append(prod.length)
            r = ctx.call(next, f)
            prod.pending = None
            if r[0] == 'StopIteration':
                break
            if r[0] != 'ok':
                ctx.fail('error', 'step %d (%d of %d bytes so far) raises %s: %s' % (len(lens), prod.length, len(data), r[0], r[1]))
            got.append(r[1])
            if len(got) > len(tops) + 5:
                ctx.fail('extra', 'more events than objects')
        L0, L1 = lens[-2] if len(lens) > 1 else lens[-1], prod.length
        for i, g in enumerate(got[:-1]):
            if i >= len(final):
                ctx.fail('extra', 'event %d delivered, the file will hold %d' % (i, len(final)))
            d = R.ev_diff(final[i], g, 'event %d (%s %s)' % (i, final[i]['type'], final[i]['event_id']))
            if d:
                ctx.fail('event', d)
        first = match = None
        ks = [k for k in prefix_range(tops, L0, L1) if k >= n_head]
        for k in reversed(ks):
            ref = simtelgen.assemble(tops[:k], None)
            d = None
            if len(ref.events) != len(got):
                d = '%d events delivered, %d expected' % (len(got), len(ref.events))
            elif got:
                e = ref.events[-1]
                d = R.ev_diff(e, got[-1], 'event %d (%s %s)' % (len(got) - 1, e['type'], e['event_id']))
            if d is None:
                d = R.runlevel_diff(f, ref, len(plan['run']['tels']), skip=k < len(tops) and tops[k].kind)
            if d is None:
                match = ref
                break
            first = first or d
        where = 'the end was met when the file had %d..%d of %d bytes' % (L0, L1, len(data))
        if match is None:
            ctx.fail('events', '%s (%d..%d complete objects): %s' % (where, min(ks or [0]), max(ks or [0]), first))
        w = R.eof_warnings(ctx, since)
        if w and L0 == L1 and boundary(tops, L0, L1):
            ctx.fail('warning', '%s, on an object boundary, but there is the warning: %s' % (where, w[0].message))
        if not w and not match.ended and not boundary(tops, L0, L1):
            ctx.fail('silent', '%s, but there is no warning' % where)
        prod.more(['all'])
        for _ in range(2):
            r = ctx.call(next, f)
            if r[0] != 'StopIteration':
                ctx.fail('end', 'after the end: %s %s' % (r[0], short(r[1])))
        f.close()
        ctx.nontrivial = L1 > opened_at and bool(got)
        ctx.log('events', len(got), 'of', len(final), 'bytes', L0, L1, 'of', len(data))


def execute_iact(plan, ctx):
    tops, n_head, nodes, data = iactgen.realize(plan['run'])
    prod = Producer(ctx, data, nodes, tops[n_head - 1].node.end)
    prod.more(plan['start'])
    drain, n_drain = plan['drain'] or [['all']], 0

    def more():
        nonlocal n_drain
        prod.more(drain[n_drain % len(drain)] if n_drain < 200 else ['all'])
        n_drain += 1
    by = {}
    for i, at, p in plan['grow']:
        by.setdefault(i, [at, p])
    final = iactgen.assemble(tops)
    step = rounds = early = 0
    with ctx.open_world(plan['io'], budget=6000000):
        ctx.world.yield_hook = prod.hook
        f = open_growing(plan, ctx, prod, tops, n_head, lambda: C16.open_iact(ctx, prod.path, dict(fmt='plain')), more)
        d = C16.head_diff(iactgen.assemble(tops[:n_head]), f)
        if d:
            ctx.fail('header', d)
        while True:
            it, n = iter(f), 0
            while True:
                if step in by:
                    prod.plan(by[step])
                step += 1
                L0 = prod.length
                r = ctx.call(next, it)
                prod.pending = None
                if r[0] != 'ok':
                    break
                if n >= len(final.events):
                    ctx.fail('extra', 'event %d delivered, the file will hold %d' % (n, len(final.events)))
                d = C16.ev_diff(final.events[n], r[1], 'event %d' % n)
                if d:
                    ctx.fail('event', d)
                n += 1
            ks = [k for k in prefix_range(tops, L0, prod.length) if k >= n_head]
            allowed = {len(iactgen.assemble(tops[:k]).events) for k in ks}
            where = 'iteration %d ended with %s when the file had %d..%d of %d bytes' % (rounds, r[0], L0, prod.length, len(data))
            if n not in allowed:
                ctx.fail('missing', '%s: %d events, expected %s' % (where, n, sorted(allowed)))
            if r[0] == 'StopIteration':
                if len(tops) not in ks:
                    ctx.fail('silent', where)
                if L0 == len(data):
                    break
            elif r[0] != 'EOFError':
                ctx.fail('error', '%s: %s' % (where, r[1]))
            elif L0 == len(data):
                ctx.fail('stuck', where)
            else:
                early += 1
                ctx.probe('iteration met the end of an unfinished file')
            rounds += 1
            if rounds > 25:
                prod.more(['all'])
            more()
        f.close()
    ctx.nontrivial = early > 0 and len(final.events) > 0
    ctx.log('rounds', rounds, 'early', early, 'events', len(final.events))


def execute(plan, ctx):
    ctx.prop = ID
    ctx.key += [plan.get('tree') or plan['run'], plan.get('ops'), plan['grow'], plan['start'], plan['drain']]
    dict(low=execute_low, simtel=execute_simtel, iact=execute_iact)[plan['k']](plan, ctx)
