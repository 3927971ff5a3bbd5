"""Peeking never changes what is read."""
from .. import gen, live, low
from ..compare import short
from ..core import BadPlan

ID = 'C07'
QUICK, THOROUGH = 8000, 500000
RULE = ('one simulated run = one file (intact or torn, any container) and one history of peek/next mixed with reads, '
        'decodes and container iteration; on uncompressed files read errors and interrupts are injected into single '
        'operations; non-trivial if at least one peek returned an object or met a failure')
REAL = ['eventio.base', 'parse() methods', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, EIO, interrupts)', 'clock']
ASSUME = ['a peek on a forward-only source that would have to go back is a read error met while peeking']
WEIGHTS = dict(next=8, peek=12, sub=3, read=3, parse=2, seek=1, show=1)
FAULTS = [['EIO', 0], ['EIO', 0], ['EIO', 1], ['KI', 0], ['KI', 1], ['seekEIO', 0]]


class PeekSession(live.Session):
    pending = None

    def warned(self):
        return len(self.ctx.warnings)

    def op_peek(self):
        ctx, t = self.ctx, self.t
        n = self.warned()
        if self.pending:
            r = ctx.call(self.f.peek)
            if r[0] != 'ok' or r[1] is not None:
                ctx.fail('peek', 'peek after a failed peek gives %s %r' % (r[0], r[1]))
            if self.warned() != n:
                ctx.fail('warning', 'the failure met while peeking is announced again')
            return
        if self.peeked is not None:
            return super().op_peek()
        fault, self.fault = self.fault, None
        if fault:
            ctx.world.arm(*fault)
        r = ctx.call(self.f.peek)
        fired = fault and ctx.world.disarm()
        start = self.alive[self.i].hdr_start if self.i < len(self.alive) else 0
        behind = self.forward and start < self.T
        if fired:
            if r[0] == 'KeyboardInterrupt' and fault[0] == 'KI':
                return ctx.probe('interrupted peek')
            if r[0] != 'ok':
                ctx.fail('peek', 'peek with an injected %s gives %s: %s' % (fault[0], r[0], r[1]))
            if r[1] is None:
                if self.i < len(self.alive) and self.warned() == n:
                    ctx.fail('warning', 'a read error met while peeking is not announced')
                # at the end of the file either failure may have come first
                self.pending = 'io' if self.warned() > n else None
                ctx.probe('peek met a read error')
                return
        if r[0] != 'ok':
            ctx.fail('peek', 'peek gives %s: %s' % (r[0], r[1]))
        if r[1] is None:
            if self.i < self.sure and not behind:
                ctx.fail('peek', 'peek gives None although object %d of %d survived' % (self.i, len(self.alive)))
            if behind and self.i < len(self.alive) or self.ended and self.forward:
                self.pending = 'io' if self.warned() > n else None
                return
            self.alive = self.alive[:self.i]
            last = self.nodes[self.i - 1].end if self.i else 0
            clean = t.complete and len(t.content) == last
            if clean:
                if self.warned() > n:
                    ctx.fail('warning', 'peeking at the clean end of the file warns: %s' % ctx.warnings[-1].message)
            elif self.forgets():
                ctx.probe('peek after a failure')
                self.pending = 'eof' if self.warned() > n else None
            elif self.warned() == n:
                msg = 'the truncation met while peeking is not announced by a warning'
                if not t.complete and t.stored[:4] == b'\x28\xb5\x2f\xfd':
                    ctx.finding(ID, 'zstd-torn-at-block-boundary', 'warning', msg)
                else:
                    ctx.fail('warning', msg)
            else:
                self.pending = 'eof'
                ctx.probe('peek met the truncation')
            self.T = max(self.T, len(t.content))
            return
        if self.i >= len(self.alive):
            ctx.fail('peek', 'peek gives %r after the last surviving object' % (r[1],))
        node = self.alive[self.i]
        low.check_header(ctx, r[1], node, 'peeked file[%d]' % self.i)
        self.T = max(self.T, node.addr + min(node.fixed, node.size))
        self.peeked = live.Live(r[1], node, 'file[%d]' % self.i)
        self.i += 1
        ctx.probe('peeked')

    def op_next(self):
        if not self.pending:
            return super().op_next()
        ctx, pending, self.pending = self.ctx, self.pending, None
        fault, self.fault = self.fault, None
        r = ctx.call(next, self.f)
        if pending == 'eof':
            if r[0] not in self.t.eof:
                ctx.fail('peek', 'peek met the truncation, but next gives %s %s instead of EOFError' % (r[0], short(r[1])))
            self.ended = r[0]
            ctx.probe('next raises the failure that peek met')
        elif r[0] == 'ok':
            if self.i >= len(self.alive):
                ctx.fail('extra', 'next gives %r after the last surviving object' % (r[1],))
            node = self.alive[self.i]
            low.check_header(ctx, r[1], node, 'file[%d]' % self.i)
            self.T = max(self.T, node.addr + min(node.fixed, node.size))
            self.live.append(live.Live(r[1], node, 'file[%d]' % self.i))
            self.i += 1
        elif not isinstance(r[1], OSError) and not (self.i >= len(self.alive) and r[0] in ('EOFError', 'StopIteration')):
            ctx.fail('peek', 'peek met a read error, but next gives %s: %s' % (r[0], r[1]))
        elif isinstance(r[1], OSError):
            ctx.probe('next raises the failure that peek met')
        return 'x'


def make(rng, idx, tier):
    st = gen.storage_spec(rng, ('plain', 'plain', 'plain', 'gz', 'zst', 'gzpy'))
    ops = live.ops(rng, rng.randint(3, 40), WEIGHTS)
    if st['fmt'] == 'plain' and rng.random() < 0.5:
        for op in ops:
            if op[0] in ('peek', 'next') and rng.random() < 0.25:
                op.append(rng.choice(FAULTS))
    return dict(tree=gen.file_spec(rng, 1, 7, rng.choice([0, 1, 2]), rng.choice([0.3, 0.7])), st=st,
                cut=gen.cut_spec(rng) if rng.random() < 0.5 else None, io=gen.io_spec(rng), ops=ops)


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut']) if plan['cut'] else gen.torn_storage(gen.store(data, st), st)
    ctx.stats['fault:cut'] += len(t.content) < len(data)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan['tree'], plan['ops'], st, len(t.content)]
    ctx.prop = ID
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        s = PeekSession(ctx, f, nodes, t, st['fmt'] in ('gz', 'zst'))
        s.fmt = st['fmt']
        for op in plan['ops']:
            if isinstance(op[-1], list):
                s.fault = op[-1] if st['fmt'] == 'plain' else None
                op = op[:-1]
            s.step(op)
            s.fault = None
        s.finish()
        ctx.nontrivial = any(k.startswith('probe:peek') for k in ctx.stats)
        ctx.log('ops', len(plan['ops']), 'at', s.i, 'of', len(s.alive), s.ended)
        f.close()
