"""Damaged storage never ends in a clean end of file."""
import random
import zlib

import zstandard

from .. import enc, gen, low
from ..compare import short
from ..core import BadPlan

ID = 'C08'
QUICK, THOROUGH = 10000, 500000
RULE = ('one simulated run = one file, one damage pattern applied to its stored bytes (bit flips, zeroed, overwritten, '
        'lost, repeated or inserted ranges, swapped blocks; aimed at object markers or anywhere), one container, one '
        'helper/reader timing; iterated to the end with every payload read; non-trivial if the stored bytes differ '
        'from the original')
REAL = ['eventio.base', 'eventio.header', 'eventio.file_types', 'zlib', 'gzip module', 'zstandard']
STUB = ['gzip helper process (output, exit status and messages as GNU gzip 1.12)', 'raw file layer', 'clock']
ASSUME = ['damage that turns the stored bytes into another valid file (payload of an uncompressed file, zero padding in '
          'place of whole gzip members, unchecksummed zstd blocks) is judged by what the damaged bytes now say']


def make(rng, idx, tier):
    st = gen.storage_spec(rng, ('plain', 'plain', 'plain', 'gz', 'gz', 'gzpy', 'zst', 'zst'))
    if st['fmt'] == 'zst':
        st['chk'] = 1
        st.pop('skip', None)
    dmg = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        dmg.append(dict(kind=rng.choice(['flip', 'flip', 'flip', 'zero', 'set', 'del', 'ins', 'rep', 'swap', 'big', 'tail']),
                        aim=rng.choice(['marker', 'marker', 'header', 'any', 'member', 'trailer']), i=rng.randint(0, 50),
                        at=rng.randint(0, 10**6), bit=rng.randint(0, 7),
                        n=rng.choice([1, 1, 2, 4, 4, 16, 64, 512]), s=rng.randint(0, 10**6)))
    return dict(tree=gen.file_spec(rng, 1, 8, rng.choice([0, 1, 2]), rng.choice([0.0, 0.5])), st=st, dmg=dmg,
                io=gen.io_spec(rng), seed=rng.randint(0, 10**9))


def damage(stored, nodes, st, dmg):
    b = bytearray(stored)
    for d in dmg:
        n = len(b)
        if not n:
            break
        aim = d['aim']
        if st['fmt'] == 'plain' and aim in ('marker', 'header', 'trailer', 'member'):
            node = nodes[d['i'] % len(nodes)]
            at = node.hdr_start + (d['at'] % 4 if aim != 'header' else d['at'] % (node.addr - node.hdr_start))
        elif aim == 'member' and st['fmt'] != 'plain':
            magic = b'\x1f\x8b\x08' if st['fmt'] != 'zst' else b'\x28\xb5\x2f\xfd'
            at = [i for i in range(n) if b[i:i + len(magic)] == magic] or [0]
            at = at[d['i'] % len(at)] + d['at'] % 12
        elif aim == 'trailer':
            at = n - 1 - d['at'] % 12
        else:
            at = d['at'] * n // 10**6
        at = max(0, min(at, n - 1))
        k, m = d['kind'], d['n']
        rnd = random.Random('dmg/%s' % d['s'])
        if k == 'flip':
            b[at] ^= 1 << d['bit'] % 8
        elif k == 'zero':
            b[at:at + m] = bytes(len(b[at:at + m]))
        elif k == 'set':
            b[at:at + m] = rnd.randbytes(len(b[at:at + m]))
        elif k == 'del':
            del b[at:at + m]
        elif k == 'ins':
            b[at:at] = rnd.randbytes(m) if rnd.random() < 0.6 else bytes(m)
        elif k == 'rep':
            b[at:at] = b[at:at + m]
        elif k == 'swap':
            x, y = bytes(b[at:at + m]), bytes(b[at + m:at + 2 * m])
            b[at:at + len(x) + len(y)] = y + x
        elif k == 'tail':
            b += rnd.choice([bytes(m), rnd.randbytes(m), enc.SYNC + bytes(m), b'\x1f\x8b' + bytes(m)])
        elif k == 'big' and st['fmt'] == 'plain':
            at = nodes[d['i'] % len(nodes)].hdr_start
            b[at:at + 4] = enc.SYNC_BIG
    return bytes(b)


def strict(stored, st):
    """(content, 'ok'|'incomplete'|'bad') of what the stored bytes now say"""
    f = st['fmt']
    if f == 'plain':
        return stored, 'ok'
    out, pos, first = b'', 0, True
    n = len(stored)
    while pos < n:
        if f == 'zst':
            # a skippable frame carries no content
            if n - pos >= 8 and 0x184D2A50 <= int.from_bytes(stored[pos:pos + 4], 'little') <= 0x184D2A5F:
                pos += 8 + int.from_bytes(stored[pos + 4:pos + 8], 'little')
                if pos > n:
                    return out, 'incomplete'
                continue
            d = zstandard.ZstdDecompressor().decompressobj()
            try:
                out += d.decompress(stored[pos:])
            except zstandard.ZstdError:
                return out, 'bad'
        else:
            if not first and not stored[pos:].strip(b'\0'):
                return out, 'ok'
            q = pos
            while not first and stored[q] == 0:
                q += 1
            pos = q
            d = zlib.decompressobj(31)
            try:
                out += d.decompress(stored[pos:])
            except zlib.error:
                return out, 'bad'
        if not d.eof:
            return out, 'incomplete'
        first = False
        pos = n - len(d.unused_data)
    return out, 'ok'


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    if st['fmt'] == 'zst' and not st.get('chk'):
        raise BadPlan('no checksum')
    stored = gen.store(data, st)
    bad = damage(stored, nodes, st, plan['dmg'])
    if st['fmt'] == 'plain' and bad[:2] == b'\x1f\x8b' or bad[:4] == b'\x28\xb5\x2f\xfd' and st['fmt'] != 'zst':
        raise BadPlan('now looks like another container')
    content, how = strict(bad, st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], bad)
    ctx.nontrivial = bad != stored
    ctx.key += [plan['tree'], st, plan['dmg']]
    for d in plan['dmg']:
        ctx.stats['fault:%s_%s' % (d['kind'], st['fmt'])] += 1
    ref, end = enc.ref_toplevel(content)
    with ctx.open_world(plan['io']):
        r = ctx.call(low.open_low, ctx, path, st)
        if r[0] != 'ok':
            opened(ctx, r, content, how, st)
            return
        f = r[1]
        got, last = [], None
        n_warn = len(ctx.warnings)
        while last is None:
            r = ctx.call(next, f)
            if r[0] != 'ok':
                last = r
                break
            o = r[1]
            i = len(got)
            if how == 'ok':
                if i >= len(ref):
                    ctx.fail('resync', 'object %d %r is delivered, but the stored bytes hold %d objects before %s' % (
                        i, o, len(ref), end))
                if low.header_of(o) != ref[i].tuple():
                    ctx.fail('header', 'object %d: delivered %s, stored %s' % (i, low.header_of(o), ref[i].tuple()))
            pos = ctx.call(o.tell)
            q = ctx.call(o.read)
            got.append((low.header_of(o), q))
            if q[0] != 'ok':
                if st['fmt'] != 'plain':
                    last = q
            elif how == 'ok' and bytes(q[1]) != content[ref[i].addr + pos[1]:ref[i].end]:
                ctx.fail('payload', 'object %d: reading returns other bytes than stored' % i)
            if len(got) > len(nodes) + 60:
                ctx.fail('resync', 'more and more objects')
        warned = len(ctx.warnings) > n_warn
        ctx.log(how, end, len(got), last[0], warned)
        judge(ctx, plan, nodes, data, content, how, ref, end, got, last, warned, bad == stored)
        # nothing appears after the error
        if how == 'ok' and st['fmt'] in ('plain', 'gzpy') and end in ('badsync', 'bigendian'):
            r = ctx.call(next, f)
            if r[0] == 'ok' or r[0] == 'StopIteration':
                ctx.fail('resync', 'after %s at object %d, asking again gives %s %r' % (last[0], len(got), r[0], r[1]))
        f.close()


def opened(ctx, r, content, how, st):
    ctx.log('refused', r[0])
    if how == 'ok' and content[:4] in (enc.SYNC, enc.SYNC_BIG) and (
            st['fmt'] == 'plain' or not isinstance(r[1], Exception)):
        ctx.fail('open', 'a file that starts with a valid marker is refused: %s: %s' % r)
    if how == 'ok' and len(content) >= 4 and st['fmt'] == 'plain' and r[0] != 'ValueError':
        ctx.fail('open', 'a damaged first marker raises %s: %s' % r)
    ctx.probe('refused at opening')


def judge(ctx, plan, nodes, data, content, how, ref, end, got, last, warned, same):
    st = plan['st']
    name, e = last
    if how == 'ok':
        # class constructors may reject a damaged header before the damage itself is reached
        odd_header = len(got) < len(ref) and ref[len(got)].tuple() not in [n.header_tuple() for n in nodes]
        if len(got) < len(ref):
            if odd_header and name not in ('StopIteration',):
                ctx.probe('damaged header refused')
                return
            if warned or (st['fmt'] != 'plain' and name != 'StopIteration' and not same):
                return
            ctx.fail('lost', 'only %d of %d objects are delivered, then %s: %s' % (len(got), len(ref), name, e))
        want = dict(clean=('StopIteration',), eof=('EOFError',), badsync=('ValueError',),
                    bigendian=('NotImplementedError',))[end]
        if end == 'clean' and st['fmt'] != 'plain' and content != data and name != 'StopIteration':
            return
        if name not in want:
            if st['fmt'] != 'plain' and (warned or name != 'StopIteration') and not same:
                return
            ctx.fail('end', 'stored bytes end with %s after %d objects, but iteration ends with %s: %s' % (
                end, len(ref), name, e))
        ctx.probe('end ' + end)
        return
    # the container itself is damaged
    if name == 'StopIteration' and not warned:
        whole = [(n.header_tuple(), data[n.addr + min(n.fixed, n.size):n.end]) for n in nodes]
        if [(h, bytes(q[1]) if q[0] == 'ok' else None) for h, q in got] == whole:
            ctx.probe('damage without effect')
            return
        msg = 'a damaged %s file (%s) ends cleanly after %d of %d objects' % (st['fmt'], how, len(got), len(nodes))
        prefix = all(q[0] == 'ok' and h == w[0] and bytes(q[1]) == w[1] for (h, q), w in zip(got, whole)) \
            and len(got) <= len(whole)
        if st['fmt'] == 'zst' and how == 'incomplete' and prefix:
            return ctx.finding(ID, 'zstd-torn-at-block-boundary', 'clean', msg)
        ctx.fail('clean', msg)
    ctx.probe('damage reported' if name != 'StopIteration' else 'damage warned about')
