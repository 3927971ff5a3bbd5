"""Independent writer model of the EventIO format (nothing imported from eventio)."""
import struct

SYNC = b'\x37\x8a\x1f\xd4'
SYNC_BIG = b'\xd4\x1f\x8a\x37'


class Node:
    """One stored object: header fields plus either payload bytes or children."""
    __slots__ = ('type', 'version', 'id', 'user', 'extended', 'payload', 'children',
                 'expect', 'name', 'hdr_start', 'addr', 'size', 'end', 'cls', 'fixed', 'meta')

    def __init__(self, type, version=0, id=0, payload=None, children=None, user=False,
                 extended=False, expect=None, name='raw', cls=None, fixed=0, meta=None):
        self.type, self.version, self.id = type, version, id
        self.user, self.extended = bool(user), bool(extended)
        self.payload, self.children = payload, children
        self.expect, self.name, self.cls = expect, name, cls
        self.fixed = fixed            # leading payload bytes the reader class reads on opening
        self.meta = meta
        self.hdr_start = self.addr = self.size = self.end = None

    @property
    def only_sub(self):
        return self.children is not None

    def header_tuple(self):
        return (self.type, self.version, self.id, self.user, self.extended, self.only_sub,
                self.addr, self.size)

    def walk(self, level=0):
        yield self, level
        for c in self.children or ():
            yield from c.walk(level + 1)


def type_word(type, version, user, extended):
    return (type & 0xffff) | (int(user) << 16) | (int(extended) << 17) | ((version & 0xfff) << 20)


def header_bytes(node, size, toplevel):
    out = SYNC if toplevel else b''
    out += struct.pack('<IiI', type_word(node.type, node.version, node.user, node.extended),
                       node.id, (size & 0x3fffffff) | (int(node.only_sub) << 30))
    if node.extended:
        out += struct.pack('<I', (size >> 30) & 0xfff)
    return out


def encode(node, toplevel=True):
    if node.children is not None:
        body = b''.join(encode(c, False) for c in node.children)
    else:
        body = node.payload
    return header_bytes(node, len(body), toplevel) + body


def layout(node, pos, toplevel=True):
    """Fill in absolute positions; return the end position."""
    node.hdr_start = pos
    node.addr = pos + (16 if toplevel else 12) + (4 if node.extended else 0)
    p = node.addr
    if node.children is not None:
        for c in node.children:
            p = layout(c, p, False)
    else:
        p += len(node.payload)
    node.size = p - node.addr
    node.end = p
    return p


def encode_file(nodes):
    data = b''.join(encode(n) for n in nodes)
    pos = 0
    for n in nodes:
        pos = layout(n, pos)
    assert pos == len(data)
    return data


# ---------------------------------------------------------------- reference parser
class Hdr:
    __slots__ = ('type', 'version', 'id', 'user', 'extended', 'only_sub', 'addr', 'size',
                 'hdr_start', 'end')

    def tuple(self):
        return (self.type, self.version, self.id, self.user, self.extended, self.only_sub,
                self.addr, self.size)


def ref_header(data, pos, toplevel):
    """Header at pos (after the sync marker check) or None if incomplete."""
    h = Hdr()
    h.hdr_start = pos
    if toplevel:
        pos += 4
    if pos + 12 > len(data):
        return None
    w, i, l = struct.unpack_from('<IiI', data, pos)
    pos += 12
    h.type, h.user, h.extended, h.version = w & 0xffff, bool(w >> 16 & 1), bool(w >> 17 & 1), w >> 20
    h.id, h.only_sub, size = i, bool(l >> 30 & 1), l & 0x3fffffff
    if h.extended:
        if pos + 4 > len(data):
            return None
        size += (struct.unpack_from('<I', data, pos)[0] & 0xfff) << 30
        pos += 4
    h.addr, h.size, h.end = pos, size, pos + size
    return h


def ref_toplevel(data):
    """(list of complete top-level headers, how the file ends: clean/eof/badsync/bigendian)."""
    out, pos = [], 0
    while True:
        if pos == len(data):
            return out, 'clean'
        if pos + 4 > len(data):
            return out, 'eof'
        s = data[pos:pos + 4]
        if s == SYNC_BIG:
            return out, 'bigendian'
        if s != SYNC:
            return out, 'badsync'
        h = ref_header(data, pos, True)
        if h is None:
            return out, 'eof'
        out.append(h)
        pos = h.end


# ---------------------------------------------------------------- primitive encoders
class Buf:
    def __init__(self):
        self.b = bytearray()

    def fmt(self, f, *v):
        self.b += struct.pack('<' + f, *v)
        return self

    def i16(self, v): return self.fmt('h', v)
    def u16(self, v): return self.fmt('H', v)
    def i32(self, v): return self.fmt('i', v)
    def u32(self, v): return self.fmt('I', v)
    def f32(self, v): return self.fmt('f', v)
    def f64(self, v): return self.fmt('d', v)

    def raw(self, b):
        self.b += bytes(b)
        return self

    def arr(self, a):
        self.b += a.tobytes()
        return self

    def string(self, s):
        return self.i16(len(s)).raw(s)

    def vstring(self, s):
        return self.uv(len(s)).raw(s)

    def uv(self, v):
        self.b += uvarint(int(v))
        return self

    def sv(self, v):
        self.b += svarint(int(v))
        return self

    def svs(self, vs):
        for v in vs:
            self.b += svarint(int(v))
        return self

    def uvs(self, vs):
        for v in vs:
            self.b += uvarint(int(v))
        return self

    def diff(self, vs):
        """signed-varint coded differences of consecutive unsigned values"""
        last = 0
        for v in vs:
            v = int(v)
            d = v - last
            # differences wrap in 32 bit arithmetic
            if d > 0x7fffffff:
                d -= 1 << 32
            if d < -0x80000000:
                d += 1 << 32
            self.b += svarint(d)
            last = v
        return self

    def done(self, pad=True):
        if pad and len(self.b) % 4:
            self.b += bytes(4 - len(self.b) % 4)
        return bytes(self.b)


def uvarint(v):
    assert 0 <= v < 1 << 64
    if v < 1 << 7:
        return bytes([v])
    for n in range(2, 9):
        if v < 1 << (7 * n):
            b = v.to_bytes(n, 'big')
            lead = (0xff << (9 - n)) & 0xff
            return bytes([b[0] | lead]) + b[1:]
    return b'\xff' + v.to_bytes(8, 'big')


def svarint(v):
    return uvarint(2 * v if v >= 0 else -2 * v - 1)
