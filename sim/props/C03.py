"""A torn payload is never decoded as if it were complete."""
import random

from .. import gen, low, objs
from ..compare import diff, short
from ..core import BadPlan

ID = 'C03'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one file in which the producer stopped inside the payload of one object (any record kind, '
        'possibly nested), one storage container, one order of decode/read attempts; non-trivial if the torn object '
        'was reached and an attempt was made on it')
REAL = ['eventio.base', 'all parse() methods', 'compiled varint/section decoders', 'corsikaio', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['a payload whose missing bytes are only padding that the decoder does not need may decode to the exact values']


def make(rng, idx, tier):
    kinds = sorted(objs.BUILDERS)
    kind = kinds[idx % len(kinds)]
    victim = gen.rec_spec(rng, kind, sc=rng.choice([1, 2, 2, 3]))
    nest = rng.choice([0, 0, 1, 2])
    for _ in range(nest):
        c = gen.cont_spec(rng, 0)
        c['c'] = [gen.tree_spec(rng, 0) for _ in range(rng.randint(0, 2))] + [victim] + (
            [gen.tree_spec(rng, 0)] if rng.random() < 0.3 else [])
        victim = c
    before = [gen.tree_spec(rng, 1, 0.9) for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(tree=before + [victim] + [gen.tree_spec(rng, 1) for _ in range(rng.randint(0, 2))], at=len(before),
                kind=kind, frac=rng.choice([0, rng.randint(0, 10**6), rng.randint(0, 10**6), 10**6]),
                back=rng.choice([0, 0, 1, 2, 3, 4, 5, 8]),
                st=gen.storage_spec(rng, ('plain', 'plain', 'gz', 'zst', 'gzpy')),
                stored_cut=int(rng.random() < 0.2), io=gen.io_spec(rng), seed=rng.randint(0, 10**9),
                ops=[rng.choice(['parse', 'parse', 'parse', 'read', 'readn', 'seekread'])
                     for _ in range(rng.randint(1, 4))])


def find(node, kind):
    """the path to the record to be torn"""
    if node.children is None:
        return [node] if node.name == kind else None
    for c in reversed(node.children):
        p = find(c, kind)
        if p:
            return [node] + p
    return None


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not 0 <= plan['at'] < len(nodes):
        raise BadPlan('at')
    path_nodes = find(nodes[plan['at']], plan['kind'])
    if not path_nodes:
        raise BadPlan('no victim')
    victim = path_nodes[-1]
    if victim.size == 0:
        ctx.log('empty payload')
        return
    st = plan['st']
    cut = victim.addr + (victim.size - 1) * plan['frac'] // 10**6
    if plan['back']:
        cut = max(victim.addr, victim.end - plan['back'])
    if plan['stored_cut'] and st['fmt'] != 'plain':
        full = gen.store(data, st)
        # a stored position that loses (at least) the end of the victim
        p = len(full) * cut // len(data)
        t = gen.torn_storage(full[:p], st)
    else:
        t = gen.Torn(gen.store(data[:cut], st), data[:cut], cut, True)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan['kind'], victim.version, plan['at'], len(t.content), st, plan['ops'], plan['seed']]
    ctx.stats['fault:cut_in_payload'] += victim.addr <= len(t.content) < victim.end
    rng = random.Random('c03/%s' % plan['seed'])
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        walk(ctx, plan, f, nodes, t, victim, rng, 'file', 0)
        ctx.call(f.close)


def walk(ctx, plan, it, nodes, t, victim, rng, where, depth):
    """decode everything in stored order; False once the truncation was met"""
    for i, node in enumerate(nodes):
        at = '%s[%d]' % (where, i)
        r = ctx.call(next, it)
        if r[0] != 'ok':
            if r[0] not in t.eof + ('StopIteration',):
                ctx.fail('torn-error', '%s: %s: %s' % (at, r[0], r[1]))
            if node.addr + min(node.fixed, node.size) <= t.low:
                ctx.fail('lost', '%s: not delivered although its header survived: %s' % (at, r[0]))
            return False
        o = r[1]
        low.check_header(ctx, o, node, at)
        if node.children is not None:
            if rng.random() < 0.2:
                low.decode(ctx, o, node, at)
            if not walk(ctx, plan, o, node.children, t, victim, rng, at, depth + 1) and node.end > len(t.content):
                return False
        elif node.end <= t.low:
            if rng.random() < 0.8:
                low.decode(ctx, o, node, at)
        elif node.end > len(t.content):
            attempts(ctx, plan, o, node, t, rng, at)
    return True


def attempts(ctx, plan, o, node, t, rng, at):
    """the payload of this object is incomplete"""
    have = max(0, len(t.content) - node.addr)
    sure = max(0, t.low - node.addr)
    body = node.payload
    forward = plan['st']['fmt'] in ('gz', 'zst')
    ctx.nontrivial = True
    ctx.probe('attempt on torn ' + node.name)
    start = o.tell()
    touched, high = False, start
    for op in plan['ops']:
        if op == 'parse':
            if forward and (touched or high > start):
                touched = True
                r = ctx.call(o.parse)
                if r[0] == 'ok' and diff(node.expect, r[1], node.name):
                    ctx.fail('torn-decode', '%s: torn object decoded on a second attempt' % at)
                continue
            if node.expect is NotImplementedError:
                low.decode(ctx, o, node, at, torn=t.eof)
                continue
            touched = True
            r = ctx.call(o.parse)
            if r[0] == 'ok':
                d = diff(node.expect, r[1], node.name)
                if d:
                    ctx.fail('torn-decode', '%s: %s v%d with %d of %d payload bytes decoded: %s' % (
                        at, node.name, node.version, have, node.size, d))
                ctx.probe('only padding was missing')
            elif r[0] not in t.eof:
                ctx.fail('torn-error', '%s: decoding %s v%d with %d of %d payload bytes raises %s: %s' % (
                    at, node.name, node.version, have, node.size, r[0], r[1]))
            else:
                ctx.probe('EOFError from decoding a torn payload')
            continue
        if forward and touched:
            continue
        if op == 'seekread':
            pos = rng.choice([0, rng.randint(0, node.size), have, max(0, have - 1)])
            if forward:
                pos = max(pos, high)
            r = ctx.call(o.seek, pos)
            if r[0] != 'ok':
                if r[0] in t.eof and pos > sure:
                    touched = True
                    continue
                ctx.fail('torn-error', '%s: seek(%d) with %d of %d payload bytes raises %s: %s' % (
                    at, pos, have, node.size, r[0], r[1]))
            if pos > sure and o.tell() != pos:
                # a stream that ends early may report that it could not get there
                touched = True
                continue
        else:
            pos = o.tell()
        high = max(high, pos)
        n = -1 if op != 'readn' else rng.choice([1, 2, 4, max(1, have - pos), have - pos + 1 if have >= pos else 1, node.size])
        r = ctx.call(o.read, n)
        want = body[pos:] if n < 0 else body[pos:pos + n]
        if not want:
            if r[0] == 'ok' and bytes(r[1]) != b'':
                ctx.fail('torn-read', '%s: read(%d) at the end (%d) returns data' % (at, n, pos))
            continue
        end = pos + len(want)
        if r[0] == 'ok':
            if bytes(r[1]) != want:
                ctx.fail('torn-read', '%s: read(%d) at %d with %d of %d payload bytes returns %d bytes %s' % (
                    at, n, pos, have, node.size, len(r[1]), short(bytes(r[1])[:30])))
            if end > have:
                ctx.fail('torn-read', '%s: read past the end of the file succeeds' % at)
            high = max(high, end)
        elif r[0] not in t.eof:
            ctx.fail('torn-error', '%s: read(%d) at %d with %d of %d payload bytes raises %s: %s' % (
                at, n, pos, have, node.size, r[0], r[1]))
        elif end <= sure:
            ctx.fail('torn-read', '%s: read(%d) at %d of %d surviving bytes raises EOFError' % (at, n, pos, have))
        else:
            touched = True
            ctx.probe('EOFError from reading past the surviving bytes')
