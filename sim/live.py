"""Operation interpreter over one open low-level file and all objects obtained from it.

Every operation is compared with a reference model that knows, per object, only that
object's own cursor and child position. On forward-only sources an operation whose
start lies before the furthest place any earlier operation may have touched may be
refused (OSError/ValueError); every other outcome must be exact.
"""
from . import low
from .compare import diff, short

REFUSED = (OSError, ValueError)


class Live:
    __slots__ = ('o', 'node', 'pos', 'sub', 'at')

    def __init__(self, o, node, at):
        self.o, self.node, self.at = o, node, at
        self.pos = min(node.fixed, node.size)
        self.sub = 0


class Session:
    fmt, failed = None, False

    def __init__(self, ctx, f, nodes, t, forward, first=0):
        self.ctx, self.f, self.nodes, self.t, self.forward = ctx, f, nodes, t, forward
        self.alive = low.survivors(nodes, len(t.content))
        self.sure = len(low.survivors(nodes, t.low))
        self.T = first                    # furthest touched place
        self.i = 0
        self.peeked = None                # Live object waiting in the peek slot
        self.live = []
        self.kept = []
        self.fault = None
        self.ended = None
        self.refused = 0

    # ------------------------------------------------------------ helpers
    def pick(self, k):
        if not self.live:
            return None
        return self.live[-1 - k % len(self.live)]

    def do(self, start, end, fn, *a):
        """('refused', e) or the outcome of fn, with fault injection and one retry"""
        ctx, w = self.ctx, self.ctx.world
        fault, self.fault = self.fault, None
        if fault:
            w.arm(fault[0], fault[1])
        r = ctx.call(fn, *a)
        fired = bool(fault) and w.disarm()
        if fired and self.forward:
            # nothing can be repeated, but nothing may be misplaced afterwards either
            if r[0] == 'ok' and fn == self.f.peek and r[1] is None:
                self.T = float('inf')
                return 'refused', None
            if r[0] != 'ok':
                if r[0] not in ('KeyboardInterrupt', 'NotImplementedError') and not isinstance(r[1], OSError):
                    ctx.fail('swallowed', 'an injected %s on a read is turned into %s: %s' % (fault[0], r[0], r[1]))
                ctx.probe('operation failed on a forward-only source')
                self.T = float('inf')
                return 'refused', r[1]
        elif fired:
            if r[0] == 'KeyboardInterrupt' or isinstance(r[1], OSError):
                ctx.probe('operation failed and was repeated')
                r = ctx.call(fn, *a)
                if r[0] != 'ok' and (r[0] == 'KeyboardInterrupt' or (isinstance(r[1], OSError) and not self.forward)):
                    ctx.fail('retry', 'repeating an operation after %s fails again: %s: %s' % (fault[0], r[0], r[1]))
            elif r[0] != 'ok' and not (isinstance(r[1], NotImplementedError)):
                ctx.fail('swallowed', 'an injected %s on a read is turned into %s: %s' % (fault[0], r[0], r[1]))
        t = self.t
        if r[0] in t.eof and (self.forward and start < self.T or not t.complete and not self.forward) and self.T >= len(t.content) and end <= len(t.content):
            # going back after the end of a torn stream was met (Python's gzip module is not reliable there either)
            ctx.probe('refused after a torn stream')
            return 'refused', r[1]
        if self.forward and start < self.T:
            if r[0] != 'ok' and isinstance(r[1], REFUSED):
                self.refused += 1
                ctx.probe('backward access refused')
                return 'refused', r[1]
        self.T = max(self.T, end)
        return r

    # ------------------------------------------------------------ operations
    def step(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def forgets(self):
        """Python's gzip module does not repeat a failure"""
        self.failed = self.failed or self.ended not in (None, 'StopIteration')
        return self.fmt == 'gzpy' and self.failed

    def end_expected(self, r, what):
        """outcome of asking for an object that is not there"""
        ctx, t = self.ctx, self.t
        last = self.nodes[len(self.alive) - 1].end if self.alive else 0
        clean = t.complete and len(t.content) == last
        if clean:
            if r[0] != 'StopIteration':
                ctx.fail('end', '%s at the end of the file: %s: %s' % (what, r[0], short(r[1])))
        elif self.forgets() and r[0] == 'StopIteration':
            ctx.probe('next after a failure')
        elif r[0] not in t.eof and not (self.ended and self.forward and r[0] != 'ok'):
            if not t.complete and t.stored[:4] == b'\x28\xb5\x2f\xfd' and r[0] == 'StopIteration':
                ctx.finding(ctx.prop, 'zstd-torn-at-block-boundary', 'end', what + ' ends cleanly on a torn zstd stream')
            else:
                ctx.fail('end', '%s at the truncation (%d of %d bytes survive): %s: %s' % (
                    what, len(t.content), self.nodes[-1].end, r[0], short(r[1])))
        self.ended = r[0]
        self.T = max(self.T, len(t.content))

    def op_next(self):
        ctx = self.ctx
        if self.peeked is not None:
            r = ctx.call(next, self.f)
            if r[0] != 'ok' or r[1] is not self.peeked.o:
                ctx.fail('peek', 'next after peek returns %s %r instead of the peeked object %r' % (
                    r[0], r[1], self.peeked.o))
            self.live.append(self.peeked)
            self.peeked = None
            return 'ok'
        if self.i >= len(self.alive):
            r = self.do(0 if self.ended else len(self.t.content), len(self.t.content), next, self.f)
            if r[0] == 'refused' and (self.ended or self.T > len(self.t.content)):
                return r[0]
            if r[0] == 'refused':
                r = (type(r[1]).__name__, r[1])
            self.end_expected(r, 'next')
            return r[0]
        node = self.alive[self.i]
        r = self.do(node.hdr_start, node.addr + min(node.fixed, node.size), next, self.f)
        if r[0] == 'refused':
            return r[0]
        if self.i >= self.sure and r[0] != 'ok':
            self.alive = self.alive[:self.i]
            self.end_expected(r, 'next')
            return r[0]
        if r[0] != 'ok':
            ctx.fail('missing', 'next gives %s: %s instead of object %d' % (r[0], r[1], self.i))
        at = 'file[%d]' % self.i
        low.check_header(ctx, r[1], node, at)
        self.i += 1
        self.live.append(Live(r[1], node, at))
        return 'ok'

    def op_peek(self):
        ctx = self.ctx
        if self.peeked is not None:
            r = ctx.call(self.f.peek)
            if r[0] != 'ok' or r[1] is not self.peeked.o:
                ctx.fail('peek', 'peeking again returns %s %r instead of %r' % (r[0], r[1], self.peeked.o))
            return 'ok'
        if self.i >= len(self.alive):
            r = self.do(0 if self.ended else len(self.t.content), len(self.t.content), self.f.peek)
            if r[0] == 'refused':
                return r[0]
            if r[0] != 'ok' or r[1] is not None:
                ctx.fail('peek', 'peek at the end of the surviving objects gives %s %r' % (r[0], r[1]))
            self.T = max(self.T, len(self.t.content))
            return 'ok'
        node = self.alive[self.i]
        start = node.hdr_start
        behind = self.forward and start < self.T
        r = self.do(start, node.addr + min(node.fixed, node.size), self.f.peek)
        if r[0] == 'refused':
            return r[0]
        if r[0] == 'ok' and r[1] is None and (behind or self.i >= self.sure):
            ctx.probe('peek gives None because it cannot go back')
            return 'none'
        if r[0] != 'ok' or r[1] is None:
            ctx.fail('peek', 'peek gives %s %r although object %d survived' % (r[0], r[1], self.i))
        low.check_header(ctx, r[1], node, 'peeked file[%d]' % self.i)
        self.peeked = Live(r[1], node, 'file[%d]' % self.i)
        self.i += 1
        ctx.probe('peeked')
        return 'ok'

    def op_sub(self, k):
        ctx = self.ctx
        conts = [x for x in self.live if x.node.children is not None]
        if not conts:
            return
        p = conts[-1 - k % len(conts)]
        kids = p.node.children
        n_alive = len(low.survivors(kids, len(self.t.content)))
        n_sure = len(low.survivors(kids, self.t.low))
        if p.sub >= len(kids):
            r = ctx.call(next, p.o)
            if r[0] != 'StopIteration':
                ctx.fail('extra', '%s: next after its last child gives %s %r' % (p.at, r[0], r[1]))
            self.resync(p)
            return r[0]
        c = kids[p.sub]
        if p.sub >= n_sure:
            return                        # torn containers are C02's business
        r = self.do(c.hdr_start, c.addr + min(c.fixed, c.size), next, p.o)
        if r[0] == 'refused':
            return self.resync(p)
        at = '%s[%d]' % (p.at, p.sub)
        if r[0] != 'ok':
            ctx.fail('missing', '%s: %s: %s instead of the stored object' % (at, r[0], r[1]))
        low.check_header(ctx, r[1], c, at)
        p.sub += 1
        self.resync(p)                    # iterating a container moves its own cursor
        self.live.append(Live(r[1], c, at))
        ctx.probe('sub-objects')
        return 'ok'

    def op_iter(self, k):
        """a new for loop over a container continues it"""
        p = self.pick(k)
        if p is None:
            return
        r = self.ctx.call(iter, p.o)
        if (p.node.children is not None) != (r[0] == 'ok'):
            self.ctx.fail('iter', '%s: iter gives %s: %s' % (p.at, r[0], r[1]))

    def op_read(self, k, n):
        ctx = self.ctx
        p = self.pick(k)
        if p is None or p.node.end > self.t.low:
            return
        size = p.node.size
        want_n = max(0, size - p.pos)
        if n is not None and n >= 0:
            want_n = min(n, want_n)
        a = p.node.addr + p.pos
        r = self.do(a, a + want_n if want_n else 0, p.o.read, n)
        if r[0] == 'refused':
            return self.resync(p)
        want = self.t.content[a:a + want_n]
        if r[0] != 'ok' or bytes(r[1]) != want:
            ctx.fail('payload', '%s: read(%s) at %d of %d gives %s %s, stored is %s' % (
                p.at, n, p.pos, size, r[0], short(r[1]), short(want)))
        p.pos += want_n
        ctx.probe('reads')
        return self.check_tell(p)

    def resync(self, p):
        """after a refused access the cursor must still be a sensible one"""
        r = self.ctx.call(p.o.tell)
        if r[0] != 'ok' or not 0 <= r[1] <= max(p.node.size, p.pos):
            self.ctx.fail('cursor', '%s: tell gives %s %r after a refused access' % (p.at, r[0], r[1]))
        p.pos = r[1]
        return 'refused'

    def check_tell(self, p):
        r = self.ctx.call(p.o.tell)
        if r[0] != 'ok' or r[1] != p.pos:
            self.ctx.fail('cursor', '%s: tell gives %s %r, its own position is %d' % (p.at, r[0], r[1], p.pos))
        return 'ok'

    def op_show(self, k):
        """as a debugger or a log message does"""
        p = self.pick(k)
        if p is None:
            return
        for fn in (str, repr):
            r = self.ctx.call(fn, p.o)
            if r[0] != 'ok' or not r[1] or str(p.node.type) not in repr(p.o):
                self.ctx.fail('show', '%s: %s gives %s %s' % (p.at, fn.__name__, r[0], short(r[1])))
        self.ctx.probe('shown')
        return self.check_tell(p)

    def op_tell(self, k):
        p = self.pick(k)
        if p is not None:
            self.check_tell(p)

    def op_seek(self, k, whence, off):
        ctx = self.ctx
        p = self.pick(k)
        if p is None or p.node.end > self.t.low:
            return
        size = p.node.size
        target = off % (size + 1)
        if whence == 1:
            arg = target - p.pos
        elif whence == 2:
            arg = size - target
        else:
            arg = target
        a = p.node.addr + target
        # a lazy seek does not touch the file, so only later reads may be refused
        r = self.do(a, a, p.o.seek, arg, whence) if whence or off % 3 else self.do(a, a, p.o.seek, arg)
        if r[0] == 'refused':
            return self.resync(p)
        if r[0] != 'ok':
            ctx.fail('seek', '%s: seek(%d, %d) at %d of %d gives %s: %s' % (p.at, arg, whence, p.pos, size, r[0], r[1]))
        if r[1] != target:
            ctx.fail('seek', '%s: seek(%d, %d) at %d of %d returns %r, not %d' % (
                p.at, arg, whence, p.pos, size, r[1], target))
        p.pos = target
        return self.check_tell(p)

    def op_before(self, k, off):
        """seeking to before the payload is an error and changes nothing"""
        p = self.pick(k)
        if p is None or p.node.end > self.t.low:
            return
        if off % 3 == 0 and p.pos <= p.node.size:
            # from the end: either refused or the start of the payload
            arg = p.node.size + 1 + off % 20
            r = self.do(p.node.addr, p.node.addr, p.o.seek, arg, 2)
            if r[0] == 'refused':
                return self.resync(p)
            if r[0] == 'ok':
                if r[1] != 0:
                    self.ctx.fail('confined', '%s: seek(%d, 2) of %d returns %r' % (p.at, arg, p.node.size, r[1]))
                p.pos = 0
            return self.check_tell(p)
        arg = -p.pos - 1 - off % 20
        r = self.ctx.call(p.o.seek, arg, 1)
        if r[0] == 'ok':
            self.ctx.fail('confined', '%s: seek(%d, 1) at %d leaves the payload and returns %r' % (p.at, arg, p.pos, r[1]))
        return self.check_tell(p)

    def op_beyond(self, k, off):
        """a cursor placed behind the payload reads nothing, it never reaches the next object"""
        ctx, p = self.ctx, self.pick(k)
        if p is None:
            return
        size = p.node.size
        target = size + 1 + off % 60
        a = p.node.addr + target
        if a > self.t.low:
            return
        whence = off % 3
        arg = [target, target - p.pos, size - target][whence]
        r = self.do(a, a, p.o.seek, arg, whence)
        if r[0] == 'refused':
            return self.resync(p)
        if r[0] == 'ok':
            if r[1] not in (target, size):
                ctx.fail('seek', '%s: seek(%d, %d) at %d of %d returns %r' % (p.at, arg, whence, p.pos, size, r[1]))
            p.pos = r[1]
        self.check_tell(p)
        if r[0] == 'ok':
            q = ctx.call(p.o.read, [-1, 1, 20, -3][off % 4])
            if q[0] != 'ok' or q[1] != b'':
                ctx.fail('confined', '%s: reading behind the payload (at %d of %d) gives %s %s' % (
                    p.at, p.pos, size, q[0], short(q[1])))
            ctx.probe('cursor behind the payload')
        return self.check_tell(p)

    def op_parse(self, k):
        ctx = self.ctx
        p = self.pick(k)
        if p is None or p.node.end > self.t.low:
            return
        node = p.node
        r = self.do(node.addr + min(node.fixed, node.size), node.end, p.o.parse)
        if r[0] == 'refused':
            return self.resync(p)
        name = '%s: %s v%d' % (p.at, node.name, node.version)
        if node.children is not None:
            if r[0] == 'ok':
                ctx.fail('decode', name + ': a container decodes to ' + short(r[1]))
        elif node.expect is NotImplementedError:
            if r[0] != 'NotImplementedError':
                ctx.fail('decode', '%s: object without decoder gives %s %s' % (name, r[0], short(r[1])))
        elif r[0] != 'ok':
            ctx.fail('decode-error', '%s raises %s: %s' % (name, r[0], r[1]))
        else:
            d = diff(node.expect, r[1], name)
            if d:
                ctx.fail('decode', d)
            ctx.probe('decodes')
            self.kept.append((node.expect, r[1], name))
        q = ctx.call(p.o.tell)
        if q[0] != 'ok' or not 0 <= q[1] <= max(node.size, p.pos):
            ctx.fail('cursor', '%s: tell gives %s %r after decoding' % (name, q[0], q[1]))
        p.pos = q[1]
        return 'ok'

    def op_fread(self, pos, n):
        """use of the file's own raw access in between"""
        ctx = self.ctx
        total = len(self.t.content)
        pos = pos % (total + 1)
        n = min(n, total - pos)
        if n == 0 or pos + n > self.t.low:
            return

        mode = n % 7
        if mode == 6 and pos + n < self.t.low:
            # relative to the current place, which may be refused if that is backwards
            d = (pos * 31 + n) % 40 - 20
            d = max(-pos, min(d, self.t.low - pos))

            def rel():
                self.f.seek(pos)
                return self.f.seek(d, 1), self.f.tell(), self.f.read(1)
            r = self.do(pos, pos + max(0, d) + 1, rel)
            if r[0] == 'refused':
                return r[0]
            if self.forward and d < 0 and r[0] != 'ok' and isinstance(r[1], REFUSED):
                self.ctx.probe('backward access refused')
                return 'refused'
            want = (pos + d, pos + d, self.t.content[pos + d:pos + d + 1])
            if r[0] != 'ok' or r[1] != want:
                ctx.fail('raw', 'file.seek(%d), seek(%d, 1), tell, read(1) gives %s %s' % (pos, d, r[0], short(r[1])))
            return
        if mode == 4 and self.t.complete and self.t.low == total:
            # relative to the end, which may be refused if the end is not known
            def end():
                return self.f.seek(pos - total, 2), self.f.tell(), self.f.read(n)
            r = self.do(0, total, end)
            if r[0] == 'refused':
                return r[0]
            if self.forward and r[0] != 'ok' and isinstance(r[1], REFUSED):
                self.ctx.probe('seek from the end refused')
                return 'refused'
            if r[0] != 'ok' or r[1] != (pos, pos, self.t.content[pos:pos + n]):
                ctx.fail('raw', 'file.seek(%d, 2), tell, read(%d) gives %s %s' % (pos - total, n, r[0], short(r[1])))
            return
        if mode == 5 and self.t.complete and self.t.low == total:
            # everything that is left
            def rest():
                self.f.seek(pos)
                return self.f.read(), self.f.tell()
            r = self.do(pos, total, rest)
            if r[0] == 'refused':
                return r[0]
            if r[0] != 'ok' or r[1] != (self.t.content[pos:], total):
                ctx.fail('raw', 'file.seek(%d), read(), tell of %d gives %s %s' % (pos, total, r[0], short(r[1])))
            return

        def go():
            q = self.f.seek(pos)
            a = self.f.tell()
            return q, a, self.f.read(n), self.f.tell()
        r = self.do(pos, pos + n, go)
        if r[0] == 'refused':
            return r[0]
        want = (pos, pos, self.t.content[pos:pos + n], pos + n)
        if r[0] != 'ok' or r[1] != want:
            ctx.fail('raw', 'file.seek(%d), tell, read(%d), tell gives %s %s' % (pos, n, r[0], short(r[1])))

    def op_drop(self, k):
        """forget an object"""
        if self.live:
            self.live.pop(k % len(self.live))

    def finish(self):
        for e, v, name in self.kept:
            d = diff(e, v, name)
            if d:
                self.ctx.fail('decode', 'a value decoded earlier has changed: ' + d)


def ops(rng, n, weights):
    names = [k for k, w in weights.items() for _ in range(w)]
    out = []
    for _ in range(n):
        k = rng.choice(names)
        a = rng.choice([0, 0, 0, 1, 2, rng.randint(0, 20)])
        if k in ('next', 'peek'):
            out.append([k])
        elif k == 'read':
            out.append([k, a, rng.choice([-1, -1, -1, -1, 0, 0, 1, 1, 2, 2, 4, 4, 13, 13, 100, 100, 5000, 5000, None, -2, -40])])
        elif k == 'seek':
            out.append([k, a, rng.choice([0, 0, 1, 1, 2]), rng.choice([0, rng.randint(0, 40), rng.randint(0, 10**6)])])
        elif k in ('before', 'beyond'):
            out.append([k, a, rng.randint(0, 100)])
        elif k == 'fread':
            out.append([k, rng.randint(0, 10**6), rng.choice([1, 2, 4, 16, 300, 5, 6, 13])])
        else:
            out.append([k, a])
    return out
