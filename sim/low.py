"""Shared pieces for checks of the low-level reader."""
import warnings

import numpy as np

from . import objs
from .compare import short


def header_of(o):
    h = o.header
    return (int(h.type), int(h.version), int(h.id), bool(h.user), bool(h.extended), bool(h.only_subobjects),
            int(h.content_address), int(h.content_size))


def check_header(ctx, o, node, where):
    got = header_of(o)
    want = node.header_tuple()
    if got != want:
        ctx.fail('header', '%s: delivered %s, stored %s (type, version, id, user, extended, container, '
                           'address, size)' % (where, got, want))
    for k, v in objs.attrs(node).items():
        g = getattr(o, k, None)
        if g is None or g != v or isinstance(v, bool) != isinstance(g, (bool, np.bool_)):
            ctx.fail('attribute', '%s: %s.%s is %r, stored is %r' % (where, type(o).__name__, k, g, v))


def payload_of(data, node):
    return data[node.addr:node.end]


def read_some(ctx, o, node, data, rng, where, upto=None):
    """Read the payload from the object's cursor in random pieces and compare; forward only."""
    body = payload_of(data, node)
    pos = o.tell()
    if pos not in (0, node.fixed):
        ctx.fail('cursor', '%s: a fresh object is at position %r' % (where, pos))
    end = len(body) if upto is None else upto
    first = True
    while pos < end or first:
        first = False
        n = rng.choice([-1, 1, 3, 17, 500, 10**6, 0])
        got = o.read(n) if n >= 0 or rng.random() < 0.5 else o.read()
        want = body[pos:] if n < 0 else body[pos:pos + n]
        if bytes(got) != want:
            ctx.fail('payload', '%s: read(%d) at %d returned %d bytes %s, stored are %d bytes %s' % (
                where, n, pos, len(got), short(bytes(got)[:40]), len(want), short(want[:40])))
        pos += len(want)
        if o.tell() != pos:
            ctx.fail('cursor', '%s: tell() is %r after reading up to %d' % (where, o.tell(), pos))
    if pos >= len(body) and bytes(o.read()) != b'':
        ctx.fail('payload', '%s: reading at the end of the object returned data' % where)


def is_stop(r):
    return r[0] == 'StopIteration'


def walk(ctx, it, nodes, data, rng, where='file', depth=0, p_read=0.6, p_enter=0.8):
    """Depth-first, forward-only walk over an intact (sub)tree with full comparison."""
    it2 = iter(it) if rng.random() < 0.7 else it
    for i, node in enumerate(nodes):
        at = '%s[%d]' % (where, i)
        r = ctx.call(next, it2)
        if r[0] != 'ok':
            ctx.fail('missing', '%s: %s instead of stored object type %d (%s)' % (at, r[0], node.type, r[1]))
        o = r[1]
        check_header(ctx, o, node, at)
        ctx.probe('objects')
        if node.children is not None:
            if rng.random() < p_enter:
                walk(ctx, o, node.children, data, rng, at, depth + 1, p_read, p_enter)
                if depth + 1 >= 2:
                    ctx.probe('nested>=2')
        elif rng.random() < p_read:
            upto = None if rng.random() < 0.7 else rng.randint(0, max(0, node.size))
            read_some(ctx, o, node, data, rng, at, upto)
    for _ in range(2):
        r = ctx.call(next, it2)
        if r[0] != 'StopIteration':
            ctx.fail('extra', '%s: after the last stored object: %s' % (
                where, 'another object %r' % (r[1],) if r[0] == 'ok' else '%s: %s' % r))


def open_low(ctx, path, st, **kw):
    from eventio import EventIOFile
    return EventIOFile(path, zcat=st['fmt'] != 'gzpy', **kw)


def survivors(nodes, limit):
    """nodes (of one level) whose header and fixed leading fields are completely before `limit`"""
    out = []
    for n in nodes:
        if n.addr + min(n.fixed, n.size) > limit:
            break
        out.append(n)
    return out


def decode(ctx, o, node, where, torn=()):
    """parse() against what was written. `torn`: the errors due if the payload is incomplete."""
    from .compare import diff
    r = ctx.call(o.parse)
    if node.children is not None:
        if r[0] == 'ok':
            ctx.fail('decode', '%s: a container decodes to %s' % (where, short(r[1])))
        return r
    name = '%s v%d' % (node.name, node.version)
    if node.expect is NotImplementedError:
        if r[0] != 'NotImplementedError' and not (torn and r[0] in torn):
            ctx.fail('decode', '%s: %s: object without decoder: parse gives %s %s' % (where, name, r[0], short(r[1])))
        return r
    if r[0] == 'ok':
        d = diff(node.expect, r[1], name)
        if d:
            ctx.fail('torn-decode' if torn else 'decode', '%s: %s%s' % (where, 'incomplete payload decoded: ' if torn else '', d))
        ctx.stats['probe:decoded ' + name] += 0 if torn else 1
    elif not (torn and r[0] in torn):
        ctx.fail('torn-error' if torn else 'decode-error',
                 '%s: %s (%s) raises %s: %s' % (where, name, 'incomplete payload' if torn else 'stored completely', r[0], r[1]))
    elif torn:
        ctx.probe('EOFError from decoding a torn payload')
    return r


def open_torn(ctx, path, st, t):
    """Open a possibly torn file; None if nothing usable survived and it was refused."""
    r = ctx.call(open_low, ctx, path, st)
    if r[0] == 'ok':
        return r[1]
    if t.low < 4 and r[0] in ('ValueError', 'EOFError') + (('BadGzipFile',) if t.odd else ()):
        ctx.probe('refused a file without a complete first marker')
        return None
    ctx.fail('open', 'opening a file with %d surviving bytes: %s: %s' % (len(t.content), r[0], r[1]))
