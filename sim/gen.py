"""Plans (JSON) for low-level files: object trees, storage, crash cuts, I/O environments."""
import gzip as _gzip
import io
import random
import struct
import zlib

import zstandard

from . import enc, objs
from .core import BadPlan
from .world import gzip_cli
from .enc import Node

RAW_TYPES = list(range(3, 61)) + list(range(300, 1101)) + list(range(1300, 2000)) + list(range(10000, 60000, 997))
PARSEABLE = [n for n in objs.BUILDERS]
# children with no payload decoder interaction problems inside generic containers
COMMON = [n for n in PARSEABLE]


# ------------------------------------------------------------------ object trees
def raw_spec(rng, big=False):
    k = rng.random()
    if k < 0.15:
        n = 0
    elif k < 0.5:
        n = rng.randint(1, 16)
    elif k < 0.9:
        n = rng.randint(1, 300)
    else:
        n = rng.randint(300, 20000 if big else 3000)
    return dict(k='raw', t=rng.choice(RAW_TYPES), v=rng.choice([0, 1, 5, rng.randint(0, 4095)]),
                id=rng.choice([0, 1, -1, rng.randint(0, 10**6), -2**31, 2**31 - 1, rng.randint(-2**31, 2**31 - 1)]),
                u=int(rng.random() < 0.2), x=int(rng.random() < 0.25), n=n, s=rng.randint(0, 10**6))


def rec_spec(rng, kind=None, sc=None, **kw):
    kind = kind or rng.choice(COMMON)
    vs = objs.BUILDERS[kind][1]
    return dict(k=kind, v=rng.choice(vs), sc=rng.choice([0, 1, 1, 2, 2, 3]) if sc is None else sc,
                s=rng.randint(0, 10**9), **kw)


def cont_spec(rng, depth, width=4, p_known=0.6, big=False):
    k = rng.choice(list(objs.CONTAINERS))
    kids = [tree_spec(rng, depth - 1, p_known, big) for _ in range(rng.randint(0, width))]
    sp = dict(k=k, v=rng.choice([0, 0, 1, 2, 77]), id=rng.choice([0, 1, rng.randint(0, 10**6), -5]),
              u=int(rng.random() < 0.1), x=int(rng.random() < 0.2), c=kids)
    if k == 'c_tel':
        sp['tel'] = rng.choice([rng.randint(1, 99), rng.randint(100, 999)])
    if k == 'c_unk':
        sp['t'] = rng.choice(RAW_TYPES)
    return sp


def tree_spec(rng, depth=3, p_known=0.6, big=False):
    r = rng.random()
    if depth > 0 and r < 0.35:
        return cont_spec(rng, depth, p_known=p_known, big=big)
    if r < 0.35 + 0.65 * p_known:
        return rec_spec(rng)
    return raw_spec(rng, big)


def file_spec(rng, lo=1, hi=6, depth=3, p_known=0.6, big=False):
    return [tree_spec(rng, depth, p_known, big) for _ in range(rng.randint(lo, hi))]


def tel_event_type(tel):
    return 2200 + tel % 100 + 1000 * (tel // 100)


def realize(sp):
    try:
        return _realize(sp)
    except (KeyError, TypeError, ValueError, IndexError, AssertionError, struct.error) as e:
        raise BadPlan('%s: %r' % (sp, e))


def _realize(sp):
    k = sp['k']
    if k == 'raw':
        if not (0 <= sp['v'] < 4096 and -2**31 <= sp['id'] < 2**31 and sp['t'] in RAW_TYPES and 0 <= sp['n'] <= 1 << 24):
            raise BadPlan(str(sp))
        body = random.Random('raw/%s' % sp['s']).randbytes(sp['n'])
        return Node(sp['t'], sp['v'], sp['id'], payload=body, user=sp['u'], extended=sp['x'],
                    expect=NotImplementedError)
    if k in objs.CONTAINERS:
        t = objs.CONTAINERS[k][0]
        if k == 'c_tel':
            if not 0 < sp['tel'] < 1000:
                raise BadPlan('tel')
            t = tel_event_type(sp['tel'])
        elif k == 'c_unk':
            t = sp['t']
            if t not in RAW_TYPES:
                raise BadPlan('type')
        return Node(t, sp['v'], sp['id'], children=[_realize(c) for c in sp['c']], user=sp['u'],
                    extended=sp['x'], name=k)
    kw = {a: b for a, b in sp.items() if a not in ('k', 's', 'v', 'sc')}
    return objs.build(k, sp['s'], sp['v'], sp['sc'], **kw)


def realize_file(specs):
    nodes = [realize(s) for s in specs]
    data = enc.encode_file(nodes)
    return nodes, data


# ------------------------------------------------------------------ storage
def storage_spec(rng, fmts=('plain', 'gz', 'gz', 'zst', 'gzpy')):
    f = rng.choice(list(fmts))
    sp = dict(fmt=f)
    if f in ('gz', 'gzpy'):
        sp['splits'] = sorted(rng.randint(0, 10000) for _ in range(rng.choice([0, 0, 1, 3])))
        sp['level'] = rng.choice([0, 1, 6])
        sp['name'] = int(rng.random() < 0.3)
    elif f == 'zst':
        sp['splits'] = sorted(rng.randint(0, 10000) for _ in range(rng.choice([0, 0, 1, 3])))
        sp['level'] = rng.choice([1, 3])
        sp['chk'] = int(rng.random() < 0.5)
        sp['size'] = int(rng.random() < 0.5)
        if rng.random() < 0.12:
            # skippable frames: pzstd puts one in front of every frame
            sp['skip'] = rng.choice(['each', 'each', 'first', 'last', 'between'])
            sp['skipn'] = rng.choice([0, 4, 4, 4, 300])
        sp['flush'] = sorted(rng.randint(0, 10000) for _ in range(rng.choice([0, 0, 1, 4])))
    if sp.get('splits') and rng.random() < 0.35:
        sp['snap'] = 1                    # as from `cat a.gz b.gz`
    return sp


SUFFIX = {'plain': '.dat', 'gz': '.gz', 'gzpy': '.gz', 'zst': '.zst'}


def _split(data, at):
    cuts = [len(data) * s // 10000 for s in at]
    out, p = [], 0
    for c in sorted(cuts):
        out.append(data[p:c])
        p = c
    out.append(data[p:])
    return out


def store(data, sp, pieces=None):
    """Stored bytes; `pieces` (content per member/frame) overrides the splits of the spec."""
    f = sp['fmt']
    if f == 'plain':
        return data
    if pieces is None:
        at = sp.get('splits') or []
        if sp.get('snap') and data:
            ends = [0] + [h.end for h in enc.ref_toplevel(data)[0] if h.end <= len(data)]
            at = sorted(min(ends, key=lambda e: abs(e - len(data) * s // 10000)) for s in at)
            pieces = [data[a:b] for a, b in zip([0] + at, at + [len(data)])]
        else:
            pieces = _split(data, at)
    out = b''
    if f in ('gz', 'gzpy'):
        for p in pieces:
            b = io.BytesIO()
            with _gzip.GzipFile(filename='x.dat' if sp.get('name') else '', fileobj=b, mode='wb', mtime=0,
                                compresslevel=min(9, sp.get('level', 6))) as g:
                g.write(p)
            out += b.getvalue()
        return out
    skip = struct.pack('<II', 0x184D2A50 + sp.get('skipn', 0) % 16, sp.get('skipn', 0)) + bytes(i % 251 for i in range(sp.get('skipn', 0)))
    for i, p in enumerate(pieces):
        if sp.get('skip') == 'each' or sp.get('skip') == ('between' if i else 'first'):
            out += skip
        parts = _split(p, sp.get('flush') or [])
        c = zstandard.ZstdCompressor(level=max(1, sp.get('level', 3)), write_checksum=bool(sp.get('chk')),
                                     write_content_size=bool(sp.get('size')))
        co = c.compressobj(size=len(p) if sp.get('size') else -1)
        for x in parts[:-1]:
            out += co.compress(x)
            out += co.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK)
        out += co.compress(parts[-1]) + co.flush()
    if sp.get('skip') == 'last':
        out += skip
    return out


def is_zcat(sp):
    return sp['fmt'] == 'gz'


def zstd_content(stored):
    """(all bytes that can be decoded from possibly torn zstd data, complete?)"""
    out, pos = b'', 0
    while pos < len(stored):
        d = zstandard.ZstdDecompressor().decompressobj()
        # feed byte-wise near the end so that everything decodable is obtained
        got = b''
        try:
            got = d.decompress(stored[pos:])
        except zstandard.ZstdError:
            return out + got, False
        out += got
        if not d.eof:
            return out, False
        pos = len(stored) - len(d.unused_data)
    return out, True


def zstd_whole_blocks(stored):
    """length of the stored prefix made of complete blocks that are followed by more input
    (the output of a last block without successor can be stuck in the decoder's buffer)"""
    pos, good = 0, 0
    n = len(stored)
    while pos + 5 <= n:
        if 0x184D2A50 <= int.from_bytes(stored[pos:pos + 4], 'little') <= 0x184D2A5F:
            pos += 8 + int.from_bytes(stored[pos + 4:pos + 8], 'little')
            if pos >= n:
                return good
            good = pos
            continue
        fhd = stored[pos + 4]
        single = fhd >> 5 & 1
        hdr = 5 + (0 if single else 1) + (0, 1, 2, 4)[fhd & 3] + ((1 if single else 0), 2, 4, 8)[fhd >> 6]
        p = pos + hdr
        while True:
            if p + 3 > n:
                return good
            b = int.from_bytes(stored[p:p + 3], 'little')
            p += 3 + (1 if (b >> 1 & 3) == 1 else b >> 3)
            if p >= n:
                return good
            good = p
            if b & 1:
                break
        if fhd >> 2 & 1:
            p += 4
            if p >= n:
                return good
            good = p
        pos = p
    return good


def gzip_content(stored):
    """(all bytes that can be decoded from possibly torn gzip data, complete?)"""
    out, pos = b'', 0
    while pos < len(stored):
        d = zlib.decompressobj(31)
        try:
            out += d.decompress(stored[pos:])
        except zlib.error:
            return out, False
        if not d.eof:
            return out, False
        pos = len(stored) - len(d.unused_data)
    return out, True


def content_of(stored, sp):
    if sp['fmt'] == 'plain':
        return stored, True
    return (zstd_content if sp['fmt'] == 'zst' else gzip_content)(stored)


# ------------------------------------------------------------------ crash cuts
def cut_spec(rng, where=None):
    """Where the file ends. Targeted: relative to an object's header/payload; else anywhere."""
    w = where or rng.choice(['content', 'content', 'stored'])
    k = rng.random()
    if k < 0.05:
        # whole blocks of the file system are lost
        return block_cut(rng, w, (16, 512, 512, 4096, 16384))
    if k < 0.35:
        return dict(where=w, mode='abs', at=rng.randint(0, 10**6))
    return dict(where=w, mode='obj', i=rng.randint(0, 10**6),
                part=rng.choice(['hdr', 'hdr', 'body', 'body', 'end', 'end', 'last']), off=rng.randint(0, 10**6),
                top=int(rng.random() < 0.5))


def block_cut(rng, where, sizes):
    return dict(where=where, mode='block', b=rng.choice(sizes), off=rng.randint(0, 10**6))


def large_case(rng, plan):
    """a file of many file system blocks, torn at one of them"""
    plan['tree'] = [dict(raw_spec(rng), x=0, n=rng.randint(1, 70000)) for _ in range(rng.randint(1, 4))]
    plan['cut'] = block_cut(rng, rng.choice(['content', 'stored', 'stored']), (512, 4096, 4096, 16384, 16384, 32768, 65536))
    plan['io'].update(buf=rng.choice([8192, 65536]), short=0.0)
    plan['io'].get('helper', {}).update(cap=65536, chunk='all', speed=1.0)


def cut_pos(sp, nodes, total, stored_total=None):
    """absolute content (or stored) position of the cut"""
    if sp['mode'] == 'block':
        n = stored_total if sp['where'] == 'stored' else total
        return sp['b'] * (sp['off'] % (n // sp['b'] + 1))
    if sp['where'] == 'stored' or sp['mode'] == 'abs':
        n = stored_total if sp['where'] == 'stored' else total
        return sp['at'] * n // 10**6 if sp['mode'] == 'abs' else sp['off'] * n // 10**6
    flat = [n for n in nodes] if sp['top'] else [n for t in nodes for n, _ in t.walk()]
    if not flat:
        return 0
    n = flat[sp['i'] % len(flat)]
    p = sp['part']
    if p == 'last':
        n = nodes[-1]
        p = 'body'
    if p == 'hdr':
        return n.hdr_start + sp['off'] % (n.addr - n.hdr_start + 1)
    if p == 'body':
        return n.addr + sp['off'] % (n.size + 1)
    return max(0, n.end - sp['off'] % 6)


class Torn:
    """stored: bytes on disk; content: everything that can be decoded from them; low: number of
    content bytes that any decoder delivers; complete: the storage itself is not torn"""

    def __init__(self, stored, content, low, complete):
        self.stored, self.content, self.low, self.complete = stored, content, low, complete
        # one byte of a further gzip member: the gzip module calls that "not a gzipped file"
        self.odd = False
        self.eof = ('EOFError',)


def torn_storage(stored, st):
    if st['fmt'] == 'plain':
        return Torn(stored, stored, len(stored), True)
    content, complete = content_of(stored, st)
    low = len(content)
    if st['fmt'] == 'zst' and not complete:
        # partial blocks may or may not be delivered, depending on the decoder's buffers
        low = len(zstd_content(stored[:zstd_whole_blocks(stored)])[0])
    if st['fmt'] == 'gz' and not complete:
        low = min(low, len(gzip_cli(stored)[0]))
    t = Torn(stored, content, low, complete)
    t.odd = st['fmt'] in ('gz', 'gzpy') and not complete and gzip_content(stored[:-1])[1]
    if t.odd:
        t.eof = ('EOFError', 'BadGzipFile')
    return t


def torn(data, nodes, st, cut):
    if cut['where'] == 'content' or st['fmt'] == 'plain':
        c = dict(cut, where='content')
        p = cut_pos(c, nodes, len(data))
        return Torn(store(data[:p], st), data[:p], p, True)
    full = store(data, st)
    p = cut_pos(cut, nodes, len(data), len(full))
    return torn_storage(full[:p], st)


# ------------------------------------------------------------------ I/O environment
def io_spec(rng, helper=True):
    sp = dict(seed=rng.randint(0, 10**9))
    if rng.random() < 0.7:
        sp['short'] = rng.choice([0.0, 0.2, 0.7])
    if rng.random() < 0.5:
        sp['buf'] = rng.choice([1, 5, 64, 4096, 1 << 20])
    if helper:
        sp['helper'] = helper_spec(rng)
    return sp


def helper_spec(rng):
    h = dict(cap=rng.choice([1, 7, 512, 4096, 65536]), speed=rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]),
             chunk=rng.choice(['tiny', 'mix', 'mix', 'all']))
    if h['chunk'] == 'tiny' or h['cap'] == 1:
        h['cap'] = max(7, h['cap'])
    if rng.random() < 0.3:
        h['stalls'] = [[rng.randint(0, 5000), rng.choice([0.5, 30.0, 3600.0])] for _ in range(rng.randint(1, 3))]
    return h
