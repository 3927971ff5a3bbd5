"""Writer model of every object type: bytes plus the value a reader must return.

Each builder returns an enc.Node whose `expect` is the expected result of parse().
Nothing here uses eventio; CORSIKA sub-blocks are interpreted with corsikaio
(a third-party dependency, trusted).
"""
import random
import struct

import numpy as np

from .enc import Node, Buf

f4 = np.dtype('<f4')


class R(random.Random):
    """Random source with value generators that favour boundaries."""

    def f32(self):
        k = self.random()
        if k < 0.1:
            return float(np.float32(self.choice([0.0, -0.0, 1.0, -1.0, 1e-38, 3e38, 0.1, 9998.0])))
        return float(np.float32(self.uniform(-1000, 1000)))

    def f32a(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        return np.array([self.f32() for _ in range(n)], dtype=f4).reshape(shape)

    def f64(self):
        return self.uniform(-1e6, 1e6)

    def sint(self, bits):
        """signed value of at most `bits` bits, any magnitude, boundaries favoured"""
        k = self.random()
        b = self.randint(1, bits - 1)
        if k < 0.3:
            v = self.randint(0, 100)
        elif k < 0.5:
            v = (1 << b) - self.randint(0, 1)
            v = min(v, (1 << (bits - 1)) - 1)
        else:
            v = self.getrandbits(b)
        if self.random() < 0.4:
            v = -v - 1
        return v

    def i32(self): return self.sint(32)
    def i16(self): return self.sint(16)

    def uint(self, bits):
        k = self.random()
        b = self.randint(1, bits)
        if k < 0.3:
            return self.randint(0, min(100, (1 << bits) - 1))
        if k < 0.5:
            return (1 << b) - 1
        return self.getrandbits(b)

    def i32a(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        return np.array([self.i32() for _ in range(n)], dtype='<i4').reshape(shape)

    def i16a(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        return np.array([self.i16() for _ in range(n)], dtype='<i2').reshape(shape)

    def u16a(self, n):
        return np.array([self.uint(16) for _ in range(n)], dtype='<u2')

    def text(self, n):
        b = bytes(self.choice(b'abcdefghijklmnopqrstuvwxyz =._-0123456789') for _ in range(n))
        if n and self.random() < 0.25:
            # some characters of more than one byte
            at = {self.randrange(n) for _ in range(self.randint(1, 3))}
            b = ''.join(self.choice('\u00b5\u00b0\u00e9\u03b3') if i in at else chr(c) for i, c in enumerate(b)).encode()
        return b

    def cnt(self, sc, lo=0, big=None):
        """an element count; sc is the size scale 0..3 of the record"""
        hi = (1, 4, 17, 70)[max(0, min(3, sc))]
        if big is not None and sc >= 3 and self.random() < 0.05:
            hi = big
        return max(lo, self.randint(0, hi))


BUILDERS = {}      # name -> (type, versions, function)


def rec(name, type, versions, fixed=0):
    def deco(fn):
        BUILDERS[name] = (type, tuple(versions), fn, fixed)
        return fn
    return deco


def build(name, seed, version=None, sc=2, **kw):
    type_, versions, fn, fixed = BUILDERS[name]
    r = R('%s/%s' % (name, seed))
    if version is None or version not in versions:
        version = versions[(version or 0) % len(versions)]
    pad = kw.pop('pad', r.random() < 0.7)
    ext = kw.pop('extended', r.random() < 0.08)
    node = fn(r, version, sc, **kw)
    if node.payload is not None:
        if pad and len(node.payload) % 4:
            node.payload += bytes(4 - len(node.payload) % 4)
    node.type = node.type if node.type is not None else type_
    node.version = version
    node.extended = ext
    node.name = name
    node.fixed = fixed
    return node


def N(b, expect, id=0, **kw):
    return Node(kw.pop('type', None), id=id, payload=bytes(b.b), expect=expect, **kw)


def tel_of(r, kw, hi=999):
    return kw['tel'] if kw.get('tel') is not None else r.choice(
        [r.randint(1, 9), r.randint(1, 99), r.randint(100, hi)])


# ------------------------------------------------------------------ history
@rec('hist_cmd', 71, [0, 1])
def _(r, v, sc):
    b = Buf()
    t, s = r.randint(0, 2**31 - 1), r.text(r.cnt(sc, big=3000))
    b.i32(t).string(s)
    return N(b, (t, s), cls='HistoryCommandLine')


@rec('hist_cfg', 72, [0, 1])
def _(r, v, sc):
    b = Buf()
    t, s = r.randint(0, 2**31 - 1), r.text(r.cnt(sc, big=3000))
    b.i32(t).string(s)
    return N(b, (t, s), cls='HistoryConfig')


@rec('hist_meta', 75, [0])
def _(r, v, sc, tel=None):
    b = Buf()
    n = r.cnt(sc)
    d = {}
    for i in range(n):
        d[b'K%d_' % i + r.text(r.cnt(1))] = r.text(r.cnt(sc, big=300))
    b.uv(n)
    for k, x in d.items():
        b.vstring(k).vstring(x)
    return N(b, d, id=-1 if tel is None else tel, cls='HistoryMeta')


# ------------------------------------------------------------------ histograms
@rec('histograms', 100, [1, 2])
def _(r, v, sc):
    b = Buf()
    n = r.cnt(min(sc, 1))
    out = []
    b.i16(n)
    for _ in range(n):
        h = {}
        t = r.choice('IiRrFD')
        h['type'] = t
        title = r.text(r.cnt(sc))
        h['title'] = title.decode()
        b.raw(t.encode()).string(title)
        if len(title) % 2 == 0:
            b.raw(b'\0')
        h['id'] = r.i32()
        nx, ny = r.randint(1, 1 + sc * 2), r.choice([0, 0, r.randint(1, 1 + sc)])
        h['n_bins_x'], h['n_bins_y'] = nx, ny
        h['entries'] = abs(r.i32() >> 1)
        h['tentries'] = r.choice([0, r.randint(1, 1000), r.randint(1, 1000)])
        b.i32(h['id']).i16(nx).i16(ny).i32(h['entries']).i32(h['tentries'])
        for ax in ('xy' if ny > 0 else 'x'):
            for k in ('underflow_', 'overflow_'):
                h[k + ax] = r.i32()
                b.i32(h[k + ax])
            for k in ('lower_', 'upper_', 'sum_', 'tsum_'):
                if t in 'RrFD':
                    h[k + ax] = r.f32()
                    b.f32(h[k + ax])
                else:
                    h[k + ax] = r.i32()
                    b.i32(h[k + ax])
        cnt = nx * (ny if ny > 0 else 1)
        if t in 'FD':
            h['content_all'], h['content_inside'] = r.f32(), r.f32()
            h['content_outside'] = r.f32a(8)
            b.f32(h['content_all']).f32(h['content_inside']).arr(h['content_outside'])
        if h['tentries'] > 0:
            d = r.f32a(cnt) if t in 'FD' else r.i32a(cnt)
            b.arr(d)
        else:
            d = np.zeros(cnt)
        h['data'] = d.reshape(ny, nx) if ny > 0 else d
        out.append(h)
    return N(b, out, id=r.randint(0, 99), cls='Histograms')


# ------------------------------------------------------------------ iact
def corsika_block(r, marker, version_pos=None, version=None, n=273, values=()):
    a = r.f32a(n)
    a.view('S4')[0] = marker
    if version_pos is not None:
        a[version_pos - 1] = version
    for i, x in values:
        a[i - 1] = x
    return a


CORSIKA_VERSIONS = [6.5, 6.99, 7.4, 7.5, 7.6, 7.64, 7.741, 7.8]


@rec('i_runh', 1200, [0])
def _(r, v, sc, cv=None):
    from corsikaio.subblocks import parse_run_header
    from corsikaio.constants import RUNH_VERSION_POSITION as P
    a = corsika_block(r, b'RUNH', P, cv or r.choice(CORSIKA_VERSIONS))
    b = Buf().i32(273).arr(a)
    return N(b, parse_run_header(a.tobytes())[0], id=r.randint(0, 9999), cls='RunHeader')


@rec('i_evth', 1202, [0])
def _(r, v, sc, cv=None, num=None):
    from corsikaio.subblocks import parse_event_header
    from corsikaio.constants import EVTH_VERSION_POSITION as P
    a = corsika_block(r, b'EVTH', P, cv or r.choice(CORSIKA_VERSIONS),
                      values=[(2, num)] if num is not None else [])
    b = Buf().i32(273).arr(a)
    return N(b, parse_event_header(a.tobytes())[0], id=num if num is not None else r.randint(0, 9999),
             cls='EventHeader')


@rec('i_evte', 1209, [0])
def _(r, v, sc, cv=None, num=None):
    from corsikaio.subblocks import parse_event_end
    a = corsika_block(r, b'EVTE', values=[(2, num)] if num is not None else [])
    b = Buf().i32(273).arr(a)
    return N(b, parse_event_end(a.tobytes(), version=7.8 if cv is None else np.float32(cv)),
             id=num if num is not None else r.randint(0, 9999), cls='EventEnd')


@rec('i_rune', 1210, [0])
def _(r, v, sc):
    from corsikaio.subblocks import parse_run_end
    a = corsika_block(r, b'RUNE', n=3)
    b = Buf().i32(3).arr(a)
    return N(b, parse_run_end(a.tobytes() + bytes(270 * 4)), id=r.randint(0, 9999), cls='RunEnd')


@rec('i_teldef', 1201, [0], fixed=4)
def _(r, v, sc, n=None):
    n = n or r.cnt(sc, lo=1)
    a = r.f32a(4, n)
    b = Buf().i32(n).arr(a)
    return N(b, {'x': a[0], 'y': a[1], 'z': a[2], 'r': a[3]}, cls='TelescopeDefinition', meta=n)


@rec('i_arroff', 1203, [0, 1])
def _(r, v, sc, n=None):
    n = r.cnt(sc) if n is None else n
    t = r.f32()
    cols = ['x', 'y', 'weight'][:2 + (v > 0)]
    a = r.f32a(len(cols), n)
    b = Buf().i32(n).f32(t).arr(a)
    return N(b, (t, dict(zip(cols, a))), id=r.randint(0, 9999), cls='ArrayOffsets', meta=(t, a))


PCOLS = ('x', 'y', 'cx', 'cy', 'time', 'zem', 'photons', 'wavelength')
PARTCOLS = ('x', 'y', 'cx', 'cy', 'time', 'momentum', 'weight', 'particle_id')
ECOLS = ('x', 'y', 'mass', 'charge', 'time', 'emission_time', 'energy', 'wavelength')


class Approx:
    """expected array of computed values; compared to a relative tolerance"""
    def __init__(self, a, rtol=1e-5):
        self.a, self.rtol = a, rtol


@rec('i_photons', 1205, [0, 1000], fixed=12)
def _(r, v, sc, tel=None, arr=None, n=None, particles=False, emitter=None):
    n = r.cnt(sc, big=2000) if n is None else n
    tel = r.randint(0, 99) if tel is None else tel
    arr = r.randint(0, 9) if arr is None else arr
    if particles:
        tel = arr = 999
        v = 0
    nph = float(np.float32(r.uniform(0, 1e5)))
    b = Buf().i16(arr).i16(tel).f32(nph).i32(n)
    if particles:
        a = r.f32a(n, 8)
        b.arr(a)
        expect = {c: a[:, i] for i, c in enumerate(PARTCOLS)}
    elif v // 1000 == 1:
        a = r.i16a(n, 8)
        a[:, 5] = [r.randint(0, 7000) for _ in range(n)]
        emit = np.array([bool(emitter) and r.random() < 0.3 for _ in range(n)], dtype=bool)
        a[:, 7] = [9999 if e else r.choice([0, r.randint(200, 900), -r.randint(200, 900), 9998])
                   for e in emit]
        b.arr(a)
        d = a.astype('f8')
        cols = [d[:, 0] * 0.1, d[:, 1] * 0.1, np.clip(d[:, 2] / 30000, -1, 1),
                np.clip(d[:, 3] / 30000, -1, 1), d[:, 4] * 0.1, 10 ** (d[:, 5] * 0.001),
                d[:, 6] * 0.01, d[:, 7]]
        ph = {c: Approx(x[~emit]) for c, x in zip(PCOLS, cols)}
        em = {c: Approx(x[emit]) for c, x in zip(ECOLS, cols)} if emit.any() else None
        expect = (ph, em)
    else:
        a = r.f32a(n, 8)
        if emitter is None:
            emitter = r.random() < 0.3
        emit = np.array([bool(emitter) and r.random() < 0.4 for _ in range(n)], dtype=bool)
        a[:, 7][a[:, 7] == 9999] = 1
        a[:, 7][emit] = 9999
        b.arr(a)
        ph = {c: a[~emit, i] for i, c in enumerate(PCOLS)}
        em = {c: a[emit, i] for i, c in enumerate(ECOLS)} if emit.any() else None
        expect = (ph, em)
    return N(b, expect, id=arr * 1000 + tel, cls='Photons', meta=dict(n=n, n_photons=nph, tel=tel, arr=arr))


@rec('i_pe', 1208, [1, 2, 3])
def _(r, v, sc, tel=None, arr=None, flags=None):
    npix = r.cnt(sc, lo=1)
    if flags is None:
        flags = r.choice([0, 1, 4, 5])
    if v < 2:
        flags = 0
    pixels = [i for i in range(npix) if r.random() < 0.5]
    counts = [r.choice([0, 1, 1, 2, 5]) for _ in pixels]
    total = sum(counts)
    tel = r.randint(0, 99) if tel is None else tel
    arr = r.randint(0, 9) if arr is None else arr
    b = Buf().i32(total).i32(npix)
    if v > 1:
        b.i16(flags)
    b.i32(len(pixels))
    pe = np.zeros(npix, 'i4')
    pid, tm, amp = [], [], []
    for p, c in zip(pixels, counts):
        if v > 2:
            b.sv(p)
        else:
            b.i16(p)
        b.i32(c)
        pe[p] = c
        t = r.f32a(c)
        b.arr(t)
        pid += [p] * c
        tm += list(t)
        if flags & 1:
            a = r.f32a(c)
            b.arr(a)
            amp += list(a)
    e = dict(n_pe=total, n_pixels=npix, non_empty=len(pixels), photoelectrons=pe,
             pixel_id=np.array(pid, 'u4'), time=np.array(tm, f4))
    if flags & 1:
        e['amplitude'] = np.array(amp, f4)
    if flags & 4:
        ph = np.zeros(npix, 'i4')
        sel = [i for i in range(npix) if r.random() < 0.5]
        b.i32(len(sel))
        for i in sel:
            ph[i] = r.i32()
            b.i16(i).i32(int(ph[i]))
        e['photons'] = ph
    return N(b, e, id=arr * 1000 + tel, cls='PhotoElectrons')


@rec('i_long', 1211, [0])
def _(r, v, sc, num=None):
    npart, nt = r.cnt(sc, lo=1), r.cnt(sc, lo=1)
    e = dict(event_id=r.i32() if num is None else num, type=r.i32(), np=npart, nthick=nt, thickstep=r.f32(),
             data=r.f32a(npart, nt))
    b = Buf().i32(e['event_id']).i32(e['type']).i16(npart).i16(nt).f32(e['thickstep']).arr(e['data'])
    return N(b, e, cls='Longitudinal')


@rec('i_card', 1212, [0])
def _(r, v, sc):
    n = r.cnt(sc)
    lines = [r.text(r.cnt(sc, big=300)) for _ in range(n)]
    b = Buf().i32(n)
    for l in lines:
        b.string(l)
    return N(b, b''.join(l + b'\n' for l in lines), cls='InputCard')


@rec('i_ahead', 1213, [0])
def _(r, v, sc):
    return N(Buf().raw(r.text(r.cnt(1))), NotImplementedError, id=r.randint(0, 99), cls='TelescopeArrayHead')


@rec('i_aend', 1214, [0])
def _(r, v, sc):
    return N(Buf().raw(r.text(r.cnt(1))), NotImplementedError, id=r.randint(0, 99), cls='TelescopeArrayEnd')


@rec('i_atm', 1216, [0, 1])
def _(r, v, sc):
    name, n = r.text(r.cnt(sc)), r.cnt(sc)
    obs = r.f64()
    t = np.array([[r.f64() for _ in range(4)] for _ in range(n)], dtype='<f8').reshape(n, 4)
    b = Buf().vstring(name).f64(obs).uv(n).arr(t)
    id = r.randint(0, 99)
    e = dict(id=id, name=name, obslevel=obs, altitude_km=t[:, 0], rho=t[:, 1], thickness=t[:, 2],
             refractive_index_minus_1=t[:, 3], five_layer_atmosphere=None, htoa=None)
    if r.random() < 0.5:
        e['htoa'] = r.f64()
        a = np.array([r.f64() for _ in range(25)], dtype='<f8').reshape(5, 5)
        e['five_layer_atmosphere'] = a
        b.uv(5).f64(e['htoa']).arr(a)
    else:
        b.uv(0)
    return N(b, e, id=id, cls='AtmosphericProfile')


# ------------------------------------------------------------------ simtel: run level
@rec('s_runh', 2000, [0, 1, 2])
def _(r, v, sc, tels=None, run=None):
    n = len(tels) if tels is not None else r.cnt(sc, lo=1)
    tels = list(tels) if tels is not None else [r.randint(1, 999) for _ in range(n)]
    e, b = {}, Buf()
    for k in ('run', 'time', 'run_type', 'tracking_mode') + (('reverse_flag',) if v >= 2 else ()):
        e[k] = r.i32()
        b.i32(e[k])
    e['direction'], e['offset_fov'], e['conv_depth'] = r.f32a(2), r.f32a(2), r.f32()
    b.arr(e['direction']).arr(e['offset_fov']).f32(e['conv_depth'])
    if v >= 1:
        e['conv_ref_pos'] = r.f32a(2)
        b.arr(e['conv_ref_pos'])
    e['n_telescopes'] = n
    b.i32(n)
    e['tel_id'] = np.array(tels, '<i2')
    e['tel_pos'] = r.f32a(n, 3)
    e['min_tel_trig'], e['duration'] = r.i32(), r.i32()
    b.arr(e['tel_id']).arr(e['tel_pos']).i32(e['min_tel_trig']).i32(e['duration'])
    e['target'], e['observer'] = r.text(r.cnt(sc)), r.text(r.cnt(sc))
    b.string(e['target']).string(e['observer'])
    return N(b, e, id=r.randint(1, 9999), cls='RunHeader')


@rec('s_mcrunh', 2001, [4])
def _(r, v, sc):
    e, b = {}, Buf()
    spec = [('shower_prog_id', 'i'), ('shower_prog_vers', 'i'), ('shower_prog_start', 'i'),
            ('detector_prog_id', 'i'), ('detector_prog_vers', 'i'), ('detector_prog_start', 'i'),
            ('obsheight', 'f'), ('n_showers', 'i'), ('n_use', 'i'), ('core_pos_mode', 'i'),
            ('core_range', 2), ('alt_range', 2), ('az_range', 2), ('diffuse', 'i'), ('viewcone', 2),
            ('E_range', 2), ('spectral_index', 'f'), ('B_total', 'f'), ('B_inclination', 'f'),
            ('B_declination', 'f'), ('injection_height', 'f'), ('atmosphere', 'i'),
            ('corsika_iact_options', 'i'), ('corsika_low_E_model', 'i'), ('corsika_high_E_model', 'i'),
            ('corsika_bunchsize', 'f'), ('corsika_wlen_min', 'f'), ('corsika_wlen_max', 'f'),
            ('corsika_low_E_detail', 'i'), ('corsika_high_E_detail', 'i')]
    _fields(r, b, e, spec)
    return N(b, e, id=r.randint(0, 99), cls='MCRunHeader')


def _fields(r, b, e, spec):
    for k, t in spec:
        if t == 'i':
            e[k] = r.i32()
            b.i32(e[k])
        elif t == 'h':
            e[k] = r.i16()
            b.i16(e[k])
        elif t == 'f':
            e[k] = r.f32()
            b.f32(e[k])
        elif t == 'tm':
            e[k] = (r.i32(), r.i32())
            b.i32(e[k][0]).i32(e[k][1])
        else:
            e[k] = r.f32a(t)
            b.arr(e[k])


@rec('s_camset', 2002, [0, 1, 2, 3, 4, 5, 6])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    e, b = dict(n_pixels=n, telescope_id=tel), Buf().i32(n)
    _fields(r, b, e, [('focal_length', 'f')])
    if v > 4:
        _fields(r, b, e, [('effective_focal_length', 'f')])
    if v > 5:
        _fields(r, b, e, [('effective_focal_length_' + k, 'f') for k in ('x', 'y', 'dx', 'dy')])
    _fields(r, b, e, [('pixel_x', n), ('pixel_y', n)])
    zero = np.zeros(n, f4)
    if v >= 4:
        curved, parallel, common = r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1])
        e['curved_surface'], e['pixels_parallel'], e['common_pixel_shape'] = curved, parallel, common
        b.sv(curved).sv(parallel)
        if curved:
            _fields(r, b, e, [('pixel_z', n)])
        else:
            e['pixel_z'] = zero
        if not parallel:
            _fields(r, b, e, [('nxpix', n), ('nypix', n)])
        else:
            e['nxpix'] = e['nypix'] = zero
        b.sv(common)
        if not common:
            e['pixel_shape'] = np.array([r.choice([-1, 0, 1, 2, 3]) for _ in range(n)])
            b.svs(e['pixel_shape'])
            _fields(r, b, e, [('pixel_area', n), ('pixel_size', n)])
        else:
            s, a, z = r.choice([0, 1, 2, 3]), r.f32(), r.f32()
            b.sv(s).f32(a).f32(z)
            e['pixel_shape'] = np.full(n, s)
            e['pixel_area'], e['pixel_size'] = np.full(n, a, f4), np.full(n, z, f4)
    else:
        e['pixels_parallel'], e['common_pixel_shape'] = 1, 0
        e['pixel_z'] = e['nxpix'] = e['nypix'] = zero
        e['pixel_shape'] = np.full(n, -1)
        _fields(r, b, e, [('pixel_area', n)])
        if v >= 1:
            _fields(r, b, e, [('pixel_size', n)])
        else:
            e['pixel_size'] = zero
    e['n_mirrors'] = e['mirror_area'] = e['cam_rot'] = 0
    if v >= 2:
        _fields(r, b, e, [('n_mirrors', 'i'), ('mirror_area', 'f')])
    if v >= 3:
        _fields(r, b, e, [('cam_rot', 'f')])
    return N(b, e, id=tel, cls='CameraSettings')


@rec('s_camorg', 2003, [1, 2])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ng, ns = r.choice([1, 2]), r.cnt(sc)
    e = dict(telescope_id=tel, n_pixels=n, n_drawers=r.i32(), n_gains=ng, n_sectors=ns)
    b = Buf().i32(n).i32(e['n_drawers']).i32(ng).i32(ns)
    e['drawer'], e['card'], e['chip'], e['channel'] = r.i16a(n), r.i16a(n, ng), r.i16a(n, ng), r.i16a(n, ng)
    for k in ('drawer', 'card', 'chip', 'channel'):
        if v == 1:
            b.arr(e[k])
        else:
            b.svs(e[k].ravel())
    sec = []
    for _ in range(n):
        s = sorted(r.sample(range(0, 200), r.randint(0, min(4, 1 + sc))))
        sec.append(np.array(s, dtype='i8'))
        if v == 1:
            b.i16(len(s))
            for x in s:
                b.i16(x)
        else:
            b.sv(len(s)).svs(s)
    e['sectors'] = sec
    e['sector_type'] = np.array([r.uint(8) for _ in range(ns)], 'u1')
    e['sector_threshold'], e['sector_pixel_threshold'] = r.f32a(ns), r.f32a(ns)
    for i in range(ns):
        b.raw(bytes([int(e['sector_type'][i])])).f32(e['sector_threshold'][i]).f32(e['sector_pixel_threshold'][i])
    return N(b, e, id=tel, cls='CameraOrganization')


@rec('s_pixset', 2004, [0, 1, 2, 3])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    nd = r.cnt(sc)
    e, b = dict(telescope_id=tel), Buf()
    _fields(r, b, e, [('setup_id', 'i'), ('trigger_mode', 'i'), ('min_pixel_mult', 'i')])
    e['n_pixels'] = n
    b.i32(n)
    e['pixel_HV_DAC'] = r.i32a(n)
    b.arr(e['pixel_HV_DAC']).i32(nd)
    e['threshold_DAC'] = r.i32a(nd)
    nd2 = r.i32()
    e['n_drawers'] = nd2        # stored a second time, the later one is reported
    b.arr(e['threshold_DAC']).i32(nd2)
    e['ADC_start'], e['ADC_count'] = r.i16a(nd), r.i16a(nd)
    b.arr(e['ADC_start']).arr(e['ADC_count'])
    if v >= 1:
        _fields(r, b, e, [('time_slice', 'f'), ('sum_bins', 'i')])
    if v >= 2:
        nr, lr = r.randint(1, 2), r.cnt(sc, lo=1)
        b.sv(nr).sv(lr)
        _fields(r, b, e, [('ref_step', 'f')])
        e['ref_shape'] = np.array([r.uniform(-10, 10) for _ in range(nr * lr)], '<f2').reshape(nr, lr)
        b.arr(e['ref_shape'])
    e['sum_offset'] = None
    if v >= 3:
        _fields(r, b, e, [('sum_offset', 'i')])
    return N(b, e, id=tel, cls='PixelSettings')


@rec('s_dispix', 2005, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    a, c = r.i32a(r.cnt(sc)), r.i32a(r.cnt(sc))
    b = Buf().i32(len(a)).arr(a).i32(len(c)).arr(c)
    return N(b, dict(telescope_id=tel, n_trig_disabled=len(a), trigger_disabled=a,
                     n_HV_disabled=len(c), HV_disabled=c), id=tel, cls='DisabledPixels')


@rec('s_camsoft', 2006, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    e, b = dict(telescope_id=tel), Buf()
    _fields(r, b, e, [(k, 'i') for k in ('dyn_trig_mode', 'dyn_trig_threshold', 'dyn_HV_mode', 'dyn_HV_threshold',
                                        'data_red_mode', 'zero_sup_mode')])
    a = r.i32a(r.cnt(sc))
    e['zero_sup_n_thr'], e['zero_sup_thresholds'] = len(a), a
    b.i32(len(a)).arr(a)
    _fields(r, b, e, [(k, 'i') for k in ('unbiased_scale', 'dyn_ped_mode', 'dyn_ped_events', 'dyn_ped_period',
                                        'monitor_cur_period', 'report_cur_period', 'monitor_HV_period',
                                        'report_HV_period')])
    return N(b, e, id=tel, cls='CameraSoftwareSettings')


@rec('s_point', 2007, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    a, ft = r.f32a(r.cnt(sc)), r.i32()
    b = Buf().i32(ft).i32(len(a)).arr(a)
    return N(b, dict(telescope_id=tel, function_type=ft, n_param=len(a), pointing_param=a), id=tel,
             cls='PointingCorrection')


@rec('s_drive', 2008, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    e, b = {}, Buf()
    _fields(r, b, e, [('drive_type_az', 'h'), ('drive_type_alt', 'h')]
            + [(k, 'f') for k in ('zeropoint_az', 'zeropoint_alt', 'sign_az', 'sign_alt', 'resolution_az',
                                  'resolution_alt', 'range_low_az', 'range_low_alt', 'range_high_az',
                                  'range_high_alt', 'park_pos_az', 'park_pos_alt')])
    return N(b, e, id=tel, cls='DriveSettings')


# ------------------------------------------------------------------ simtel: events
@rec('s_trig', 2009, [0, 1, 2, 3])
def _(r, v, sc, tels=None, data=None, count=None):
    b, e = Buf(), {}
    if tels is None:
        tels = r.sample(range(1, 1000), r.cnt(sc))
    if data is None:
        data = [t for t in tels if r.random() < 0.8]
    _fields(r, b, e, [('cpu_time', 'tm'), ('gps_time', 'tm'), ('trigger_pattern', 'i'), ('data_pattern', 'i')])
    if v >= 1:
        e['n_triggered_telescopes'] = len(tels)
        e['triggered_telescopes'] = np.array(tels, '<i2')
        e['trigger_times'] = r.f32a(len(tels))
        e['n_telescopes_with_data'] = len(data)
        e['telescopes_with_data'] = np.array(data, '<i2')
        b.i16(len(tels)).arr(e['triggered_telescopes']).arr(e['trigger_times'])
        b.i16(len(data)).arr(e['telescopes_with_data'])
    if v >= 2:
        masks = [r.choice([1, 2, 3, 4, 5, 7, 8, 15, 0x11, 0x20, 0x43, 0x101, 0x200, 0x70, 0x7ff]) for _ in tels]
        b.uvs(masks)
        byt = {}
        for t, m in zip(tels, masks):
            bits = [i for i in range(4) if m >> i & 1]
            if len(bits) > 1:
                byt[t] = {}
                for i in bits:
                    byt[t][i] = r.f32()
                    b.f32(byt[t][i])
        # trigger bits written one hex digit too low by older writers are reported corrected
        e['teltrg_type_mask'] = np.array([(m & ~0x70) | ((m & 0x70) << 4) for m in masks], 'i8')
        e['teltrg_time_by_type'] = byt
    if v >= 3:
        c = {}
        _fields(r, b, c, [('az', 'f'), ('alt', 'f'), ('speed_of_light', 'f')])
        e['plane_wavefront_compensation'] = c
    return N(b, e, id=r.randint(1, 10**6) if count is None else count, cls='TriggerInformation')


def image_id(tel):
    return (tel & 0xff) | ((tel & 0x3f00) << 16)


@rec('s_track', None, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    raw, cor = r.choice([(1, 0), (0, 1), (1, 1)])
    e, b = {}, Buf()
    if raw:
        _fields(r, b, e, [('azimuth_raw', 'f'), ('altitude_raw', 'f')])
    if cor:
        _fields(r, b, e, [('azimuth_cor', 'f'), ('altitude_cor', 'f')])
    e['telescope_id'] = tel
    return N(b, e, id=image_id(tel) | (0x100 * raw) | (0x200 * cor), type=2100 + tel % 100 + 1000 * (tel // 100),
             cls='TrackingPosition', meta=tel)


@rec('s_telhead', 2011, [0, 1, 2, 3, 4])
def _(r, v, sc, tel=None, glob=None):
    tel = tel_of(r, dict(tel=tel))
    e, b = {}, Buf()
    _fields(r, b, e, [('loc_count', 'i')])
    e['glob_count'] = r.i32() if glob is None else glob
    b.i32(e['glob_count'])
    _fields(r, b, e, [('cpu_time', 'tm'), ('gps_time', 'tm')])
    src = r.uint(8)
    fl = r.choice([0, 0x100, 0x200, 0x300, 0x500, 0x700])
    e['trg_source'] = src
    b.i16(src | fl)
    n = r.cnt(sc)
    if fl & 0x100:
        e['list_trgsect'] = r.i16a(n)
        if v <= 1:
            b.i16(n).arr(e['list_trgsect'])
        else:
            b.sv(n).svs(e['list_trgsect'])
        if v >= 1 and fl & 0x400:
            e['time_trgsect'] = r.f32a(n)
            b.arr(e['time_trgsect'])
    if fl & 0x200:
        m = r.cnt(sc)
        e['n_phys_addr'], e['phys_addr'] = m, r.i16a(m)
        if v <= 1:
            b.i16(m).arr(e['phys_addr'])
        else:
            b.sv(m).svs(e['phys_addr'])
    if v >= 3:
        _fields(r, b, e, [('readout_time', 'f'), ('relative_trigger_time', 'f')])
    if v >= 4:
        _fields(r, b, e, [('start_readout', 'i')])
    e['telescope_id'] = tel
    return N(b, e, id=tel, cls='TelescopeEventHeader')


class Squeezed:
    """array whose last axis is dropped by the reader when it has length one"""


def _squeeze(a):
    return a[..., 0] if a.shape[-1] == 1 else a


@rec('s_sums', 2012, [3])
def _(r, v, sc, tel=None, n=None, mode=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ng = r.choice([1, 2])
    mode = r.choice([0, 1, 2]) if mode is None else mode
    b = Buf().i32(n).i16(ng)
    hi = r.choice([100, 5000, 2**20, 2**31 - 1])
    val = lambda: r.randint(0, hi)
    a = np.zeros((ng, n), dtype='i8')
    if mode == 0:
        for g in range(ng):
            a[g] = [val() for _ in range(n)]
            b.diff(a[g])
    elif mode == 1:
        for k in range(0, n, 16):
            m = min(16, n - k)
            sel = [j for j in range(m) if r.random() < 0.5]
            z = sum(1 << j for j in sel)
            b.i16(z - (1 << 16) if z & 0x8000 else z)
            for g in ([1, 0] if ng == 2 else [0]):
                vals = [val() for _ in sel]
                b.diff(vals)
                for j, x in zip(sel, vals):
                    a[g, k + j] = x
    else:
        sel = [i for i in range(n) if r.random() < 0.6]
        marks = []
        for i in sel:
            if ng == 2:
                marks.append(r.choice([0, 0x2000, 0x6000]))
            else:
                marks.append(r.choice([0, 0x2000, 0x6000, 0x4000]))
        b.i16(len(sel))
        for i, m in zip(sel, marks):
            b.u16(i | m)
        if ng == 2:
            lg = [(i, val()) for i, m in zip(sel, marks) if not m & 0x2000]
            b.diff([x for _, x in lg])
            for i, x in lg:
                a[1, i] = x
        hg = [(i, val()) for i, m in zip(sel, marks) if not m & 0x4000]
        b.diff([x for _, x in hg])
        h8 = [(i, r.uint(8)) for i, m in zip(sel, marks) if m & 0x4000]
        b.raw(bytes(x for _, x in h8))
        for i, x in hg + h8:
            a[0, i] = x
    # a single pixel is squeezed away by the reader (documented numpy squeeze)
    flags = mode | (r.choice([0, 1]) << 10 if mode == 2 else 0)
    return N(b, _squeeze(a), id=flags | (tel << 12), cls='ADCSums', meta=dict(tel=tel))


@rec('s_samples', 2013, [3])
def _(r, v, sc, tel=None, n=None, zs=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(min(sc, 2), lo=1) if n is None else n
    ng, ns = r.choice([1, 2]), r.choice([1, 2, 5, 25])
    zs = r.choice([0, 1]) if zs is None else zs
    b = Buf().i32(n).i16(ng).i16(ns)
    hi = r.choice([10, 3000, 65535])
    a = np.zeros((ng, n, ns), dtype='i8')
    if not zs:
        pix = list(range(n))
    else:
        pix, ranges, i = [], [], 0
        while i < n:
            if r.random() < 0.5:
                i += 1
                continue
            j = min(n - 1, i + r.choice([0, 0, 1, 3]))
            ranges.append((i, j))
            pix += range(i, j + 1)
            i = j + 1
        b.sv(len(ranges))
        for i, j in ranges:
            if i == j and r.random() < 0.7:
                b.sv(-i - 1)
            else:
                b.sv(i).sv(j)
    for g in range(ng):
        for p in pix:
            base = r.randint(0, hi)
            a[g, p] = [min(65535, max(0, base + r.randint(-hi // 3 - 1, hi // 3 + 1))) for _ in range(ns)]
            b.diff(a[g, p])
    return N(b, _squeeze(a), id=zs | (tel << 12), cls='ADCSamples', meta=dict(tel=tel))


@rec('s_image', 2014, [5, 6])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    fl = r.choice([0, 0x100, 0x200, 0x400, 0x800, 0xf00, r.getrandbits(4) << 8])
    cut = r.uint(8)
    # bits 24-29 hold the high part of the telescope id
    id = image_id(tel) | fl | (cut << 12)
    e, b = dict(flags=id, flags_hex=hex(id), telescope_id=tel, cut_id=cut), Buf()
    e['pixels'], e['n_sat'] = r.uint(15), r.choice([0, 0, 1, 7])
    if v >= 6:
        b.sv(e['pixels']).sv(e['n_sat'])
    else:
        b.i16(e['pixels']).i16(e['n_sat'])
    if e['n_sat'] > 0:
        _fields(r, b, e, [('clip_amp', 'f')])
    _fields(r, b, e, [(k, 'f') for k in ('amplitude', 'x', 'y', 'phi', 'l', 'w')] + [('n_conc', 'h'), ('concentration', 'f')])
    if fl & 0x100:
        _fields(r, b, e, [(k + '_err', 'f') for k in ('x', 'y', 'phi', 'l', 'w')])
    if fl & 0x200:
        _fields(r, b, e, [(k, 'f') for k in ('skewness', 'skewness_err', 'kurtosis', 'kurtosis_err')])
    if fl & 0x400:
        n = r.cnt(sc)
        e['n_hot'], e['hot_amp'], e['hot_pixel'] = n, r.f32a(n), r.i16a(n)
        if v >= 6:
            b.sv(n).arr(e['hot_amp']).svs(e['hot_pixel'])
        else:
            b.i16(n).arr(e['hot_amp']).arr(e['hot_pixel'])
    if fl & 0x800:
        _fields(r, b, e, [('tm_' + k, 'f') for k in ('slope', 'residual', 'width1', 'width2', 'rise')])
    return N(b, e, id=id, cls='ImageParameters')


@rec('s_stereo', 2015, [1])
def _(r, v, sc):
    bits = r.choice([0, 0x3ff, r.getrandbits(10)])
    e, b = dict(result_bits=bits), Buf()
    _fields(r, b, e, [('n_trg', 'h'), ('n_read', 'h'), ('n_img', 'h'), ('img_pattern', 'i')])
    for m, ks in [(1, 'Az Alt'), (2, 'err_dir1 err_dir2 err_dir3'), (4, 'xc yc'),
                  (8, 'err_core1 err_core2 err_core3'), (0x10, 'mscl mscw'), (0x20, 'err_mscl err_mscw'),
                  (0x40, 'energy'), (0x80, 'err_energy'), (0x100, 'xmax'), (0x200, 'err_xmax')]:
        if bits & m:
            _fields(r, b, e, [(k, 'f') for k in ks.split()])
    return N(b, e, id=bits, cls='StereoReconstruction')


@rec('s_timing', 2016, [1, 2])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ng, nt = r.choice([1, 2]), r.randint(0, 3)
    before, after = r.choice([(3, 4), (0, 0), (-1, -1), (-1, 2), (2, -1)])
    lt = r.choice([1, 2])
    with_sum = before >= 0 and after >= 0
    thr = r.choice([5, 0, -5])
    only_sel = thr < 0
    e = dict(n_pixels=n, n_gains=ng, before_peak=before, after_peak=after, with_sum=with_sum, list_type=lt,
             threshold=thr, glob_only_selected=only_sel, n_types=nt)
    b = Buf()
    (b.i16 if v <= 1 else b.sv)(n)
    b.i16(ng).i16(before).i16(after).i16(lt)
    sel, lst = [], []
    if lt == 1:
        sel = [i for i in range(n) if r.random() < 0.4]
        lst = sel
        size = len(sel)
    else:
        i = 0
        while i < n:
            if r.random() < 0.5:
                i += 1
                continue
            j = min(n - 1, i + r.choice([0, 1, 3]))
            lst += [i, j]
            sel += range(i, j + 1)
            i = j + 1
        size = len(lst) // 2
    if v <= 1:
        b.i16(size).raw(np.array(lst, '<i2').tobytes())
    else:
        b.sv(size).svs(lst)
    e['pixel_list'] = np.array(lst, 'i4').reshape(-1, 2) if lt == 2 else np.array(lst, 'i4')
    b.i16(thr).i16(nt)
    e['time_type'], e['time_level'] = r.i16a(nt), r.f32a(nt)
    b.arr(e['time_type']).arr(e['time_level'])
    gran = r.choice([0.1, 0.25, 0.01, 1.0])
    e['granularity'], e['peak_global'] = float(np.float32(gran)), r.f32()
    b.f32(gran).f32(e['peak_global'])
    time = np.full((n, nt), np.nan, 'f8')
    loc, glob = np.zeros((ng, n), 'i8'), np.zeros((ng, n), 'i8')
    for p in sel:
        for t in range(nt):
            x = r.i16()
            b.i16(x)
            time[p, t] = x * float(np.float32(gran))
        if with_sum:
            for g in range(ng):
                loc[g, p] = r.sint(30)
                b.sv(loc[g, p])
            if only_sel:
                for g in range(ng):
                    glob[g, p] = r.sint(30)
                    b.sv(glob[g, p])
    if with_sum and sel and not only_sel:
        for g in range(ng):
            for p in range(n):
                glob[g, p] = r.sint(30)
                b.sv(glob[g, p])
    e['time'], e['pulse_sum_loc'], e['pulse_sum_glob'] = Approx(time), loc, glob
    return N(b, e, id=tel, cls='PixelTiming')


@rec('s_shower', 2020, [0, 1, 2])
def _(r, v, sc, num=None):
    num = r.randint(0, 10**6) if num is None else num
    e, b = dict(shower=num), Buf()
    _fields(r, b, e, [('primary_id', 'i'), ('energy', 'f'), ('azimuth', 'f'), ('altitude', 'f')])
    if v >= 1:
        _fields(r, b, e, [('depth_start', 'f')])
    _fields(r, b, e, [('h_first_int', 'f'), ('xmax', 'f')])
    if v >= 1:
        _fields(r, b, e, [('hmax', 'f'), ('emax', 'f'), ('cmax', 'f')])
    else:
        e['hmax'] = e['emax'] = e['cmax'] = 0
    n = r.cnt(min(sc, 1))
    e['n_profiles'], e['profiles'] = n, []
    b.i16(n)
    for _ in range(n):
        p = {}
        p['id'], p['n_steps'] = r.i32(), r.cnt(sc)
        b.i32(p['id']).i32(p['n_steps'])
        _fields(r, b, p, [('start', 'f'), ('end', 'f'), ('content', p['n_steps'])])
        e['profiles'].append(p)
    if v >= 2:
        x, xb = {}, Buf()
        x['weight'], x['n_iparam'], x['n_fparam'] = r.f32(), r.cnt(sc), r.cnt(sc)
        xb.f32(x['weight']).uv(x['n_iparam']).uv(x['n_fparam'])
        if x['n_iparam']:
            x['iparam'] = r.i32a(x['n_iparam'])
            xb.arr(x['iparam'])
        if x['n_fparam']:
            x['fparam'] = r.f32a(x['n_fparam'])
            xb.arr(x['fparam'])
        e['mc_extra_params'] = x
        xb.done()
        b.raw(struct.pack('<IiI', 1215, r.i32(), len(xb.b))).raw(xb.b)
    return N(b, e, id=num, cls='MCShower')


@rec('s_extra', 1215, [0])
def _(r, v, sc):
    x, xb = {}, Buf()
    x['weight'], x['n_iparam'], x['n_fparam'] = r.f32(), r.cnt(sc), r.cnt(sc)
    xb.f32(x['weight']).uv(x['n_iparam']).uv(x['n_fparam'])
    if x['n_iparam']:
        x['iparam'] = r.i32a(x['n_iparam'])
        xb.arr(x['iparam'])
    if x['n_fparam']:
        x['fparam'] = r.f32a(x['n_fparam'])
        xb.arr(x['fparam'])
    return N(xb, x, cls='MCExtraParams')


@rec('s_mcevent', 2021, [0, 1, 2])
def _(r, v, sc, num=None, shower=None):
    num = r.randint(0, 10**6) if num is None else num
    e, b = dict(event_id=num, aweight=1.0), Buf()
    e['shower_num'] = r.i32() if shower is None else shower
    b.i32(e['shower_num'])
    _fields(r, b, e, [('xcore', 'f'), ('ycore', 'f')])
    if v >= 2:
        _fields(r, b, e, [('aweight', 'f')])
    return N(b, e, id=num, cls='MCEvent')


@rec('s_cammon', 2022, [0, 1])
def _(r, v, sc, tel=None, n=None, what=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ns, nd, ng = r.cnt(sc), r.cnt(sc), r.choice([1, 2])
    what = r.choice([0x7f, 0x04, 0, r.getrandbits(7), r.getrandbits(7)]) if what is None else what
    id = image_id(tel) | (what << 8)
    e, b = dict(telescope_id=tel, what=what), Buf()
    _fields(r, b, e, [('known', 'h'), ('new_parts', 'h'), ('monitor_id', 'i'), ('moni_time', 'tm')])
    e.update(n_sectors=ns, n_pixels=n, n_drawers=nd, n_gains=ng)
    for x in (ns, n, nd, ng):
        (b.i16 if v == 0 else b.sv)(x)
    if what & 1:
        _fields(r, b, e, [('status_time', 'tm'), ('status_bits', 'i')])
    if what & 2:
        _fields(r, b, e, [('trig_time', 'tm'), ('coinc_count', 'i'), ('event_count', 'i'), ('trigger_rate', 'f'),
                          ('sector_rate', ns), ('event_rate', 'f'), ('data_rate', 'f'), ('mean_significant', 'f')])
    if what & 4:
        _fields(r, b, e, [('ped_noise_time', 'tm'), ('n_ped_slices', 'h')])
        e['pedestal'], e['noise'] = r.f32a(ng, n), r.f32a(ng, n)
        b.arr(e['pedestal']).arr(e['noise'])
    if what & 8:
        _fields(r, b, e, [('hv_temp_time', 'tm')])
        a, c = r.cnt(sc), r.cnt(sc)
        e['n_drawer_temp'], e['n_camera_temp'] = a, c
        e['hv_v_mon'], e['hv_i_mon'] = r.i16a(n), r.i16a(n)
        e['hv_stat'] = np.array([r.uint(8) for _ in range(n)], 'u1')
        e['drawer_temp'], e['camera_temp'] = r.i16a(nd, a), r.i16a(c)
        b.i16(a).i16(c)
        for k in ('hv_v_mon', 'hv_i_mon', 'hv_stat', 'drawer_temp', 'camera_temp'):
            b.arr(e[k])
    if what & 0x10:
        _fields(r, b, e, [('dc_rate_time', 'tm')])
        e['current'], e['scaler'] = r.u16a(n), r.u16a(n)
        b.arr(e['current']).arr(e['scaler'])
    if what & 0x20:
        _fields(r, b, e, [('hv_thr_time', 'tm')])
        e['hv_dac'], e['thresh_dac'] = r.u16a(n), r.u16a(nd)
        e['hv_set'] = np.array([r.uint(8) for _ in range(n)], 'u1')
        e['trig_set'] = np.array([r.uint(8) for _ in range(n)], 'u1')
        for k in ('hv_dac', 'thresh_dac', 'hv_set', 'trig_set'):
            b.arr(e[k])
    if what & 0x40:
        _fields(r, b, e, [('set_daq_time', 'tm')] + [('daq_' + k, 'h') for k in ('conf', 'scaler_win', 'nd', 'acc', 'nl')])
    return N(b, e, id=id, cls='CameraMonitoring', meta=tel)


@rec('s_laser', 2023, [0, 1, 2, 3])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ng = r.choice([1, 2])
    e, b = dict(telescope_id=tel), Buf().u16(n).i16(ng)
    _fields(r, b, e, [('lascal_id', 'i')])
    e['calib'] = r.f32a(ng, n)
    b.arr(e['calib'])
    if v >= 1:
        t = r.f32a(ng, 2)
        e['max_int_frac'], e['max_pixtm_frac'] = t[:, 0], t[:, 1]
        b.arr(t)
    if v >= 2:
        e['tm_calib'] = r.f32a(ng, n)
        b.arr(e['tm_calib'])
    if v >= 3:
        e['flat_fielding'] = r.f32a(ng, n)
        b.arr(e['flat_fielding'])
    return N(b, e, id=tel, cls='LaserCalibration', meta=tel)


@rec('s_mcpe', 2026, [0, 1, 2])
def _(r, v, sc, num=None, n=None):
    n = r.cnt(sc) if n is None else n
    num = r.randint(0, 10**6) if num is None else num
    e, b = dict(event=num, n_tel=n), Buf()
    _fields(r, b, e, [('shower_num', 'i')])
    e['n_pe'] = r.i32a(n)
    b.i32(n).arr(e['n_pe']).raw(bytes(4 * n))
    if v >= 1:
        _fields(r, b, e, [(k, n) for k in ('photons', 'photons_atm', 'photons_atm_3_6', 'photons_atm_qe')])
    if v >= 2:
        _fields(r, b, e, [('photons_atm_400', n)])
    return N(b, e, id=num, cls='MCPhotoelectronSum')


@rec('s_pixlist', 2027, [0, 1])
def _(r, v, sc, tel=None, code=None):
    tel = tel_of(r, dict(tel=tel))
    code = r.choice([0, 1, 2]) if code is None else code
    a = r.i16a(r.cnt(sc))
    b = Buf()
    if v < 1:
        b.i16(len(a)).arr(a)
    else:
        b.sv(len(a)).svs(a)
    return N(b, dict(code=code, telescope_id=tel, pixels=len(a), pixel_list=a), id=code * 1000000 + tel,
             cls='PixelList', meta=code)


@rec('s_auxdig', 2029, [0])
def _(r, v, sc, tel=None, aux=None):
    tel = tel_of(r, dict(tel=tel))
    nt, ns = r.cnt(min(sc, 1)), r.cnt(sc)
    e, b = dict(tel_id=tel), Buf().i32(tel)
    _fields(r, b, e, [('time_scale', 'f')])
    b.uv(nt).uv(ns)
    a = np.array([[r.uint(r.choice([8, 16, 31])) for _ in range(ns)] for _ in range(nt)], 'i8').reshape(nt, ns)
    for row in a:
        b.diff(row)
    e['trace_data'] = a
    return N(b, e, id=r.randint(0, 9) if aux is None else aux, cls='AuxiliaryDigitalTraces')


@rec('s_auxana', 2030, [0])
def _(r, v, sc, tel=None, aux=None):
    tel = tel_of(r, dict(tel=tel))
    nt, ns = r.cnt(min(sc, 1)), r.cnt(sc)
    e, b = dict(tel_id=tel), Buf().i32(tel)
    _fields(r, b, e, [('time_scale', 'f')])
    e['trace_data'] = r.f32a(nt, ns)
    b.uv(nt).uv(ns).arr(e['trace_data'])
    return N(b, e, id=r.randint(0, 9) if aux is None else aux, cls='AuxiliaryAnalogTraces')


@rec('s_pixtrig', 2032, [0])
def _(r, v, sc, tel=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc)
    e, b = {}, Buf()
    _fields(r, b, e, [('time_step', 'f')])
    e['n_times'] = n
    e['pixel_ids'] = np.array([r.uint(15) for _ in range(n)], 'i8')
    e['trigger_times'] = np.array([r.sint(31) for _ in range(n)], 'i8')
    b.sv(n).svs(e['pixel_ids']).svs(e['trigger_times'])
    return N(b, e, id=tel, cls='PixelTriggerTimes')


@rec('s_pixmon', 2033, [0])
def _(r, v, sc, tel=None, n=None):
    tel = tel_of(r, dict(tel=tel))
    n = r.cnt(sc, lo=1) if n is None else n
    ng, fl = r.choice([1, 2]), r.choice([0, 0xff, r.getrandbits(8), r.getrandbits(8)])
    e, b = dict(flags=fl, n_pixels=n, n_gains=ng), Buf().i32(fl).i32(n).i16(ng)
    for bit, k in enumerate(('nsb_rate', 'qe_rel', 'gain_rel', 'hv_rel', 'current', 'fadc_amp_hg')):
        if fl >> bit & 1:
            _fields(r, b, e, [(k, n)])
    if fl & 0x40 and ng > 1:
        _fields(r, b, e, [('fadc_amp_lg', n)])
    if fl & 0x80:
        e['disabled'] = np.array([r.random() < 0.3 for _ in range(n)], '?')
        b.arr(e['disabled'])
    return N(b, e, id=tel, cls='PixelMonitoring', meta=tel)


for _name, _type, _cls in [('i_camlay', 1206, 'CameraLayout'), ('i_trigtime', 1207, 'TriggerTime'),
                           ('s_pixcal', 2017, 'PixelCalibration'), ('s_runstat', 2024, 'RunStatistics'),
                           ('s_mcrunstat', 2025, 'MCRunStatistics'), ('s_fsphot', 2031, 'FSPhot')]:
    @rec(_name, _type, [0, 1])
    def _(r, v, sc, _cls=_cls):
        return N(Buf().raw(r.text(r.cnt(sc))), NotImplementedError, id=r.randint(0, 99), cls=_cls)


# containers: type of the object that contains only sub-objects
CONTAINERS = {'c_history': (70, 'History'), 'c_teldata': (1204, 'TelescopeData'), 'c_array': (2010, 'ArrayEvent'),
              'c_calib': (2028, 'CalibrationEvent'), 'c_calpe': (2034, 'CalibrationPhotoelectrons'),
              'c_tel': (None, 'TelescopeEvent'), 'c_unk': (0, None)}


# ------------------------------------------------------------------ object attributes
def attrs(n):
    """what an object says about itself before it is decoded, from its header and fixed fields"""
    t, id = n.type, n.id
    if n.name == 'raw' or n.name in BUILDERS and n.version not in BUILDERS[n.name][1]:
        return {}               # of an unknown version: nothing is known about its header fields
    if t in (2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033):
        return dict(telescope_id=id)
    if t == 2000:
        return dict(run_id=id)
    if t == 2009:
        return dict(global_count=id)
    if t == 2010:
        return dict(event_id=id)
    if t == 2028:
        return dict(type=id)
    if n.name == 's_track':
        return dict(telescope_id=n.meta, has_raw=bool(id & 0x100), has_cor=bool(id & 0x200))
    if n.name == 'c_tel':
        return dict(telescope_id=(t - 2200) // 1000 * 100 + (t - 2200) % 1000, global_count=id)
    if t in (2012, 2013):
        return dict(telescope_id=id >> 12 & 0xffff)
    if t in (2014, 2022):
        return dict(telescope_id=(id & 0xff) + 256 * (id >> 24 & 0x3f))
    if t == 2027:
        return dict(telescope_id=id % 1000000, code=id // 1000000)
    if t == 1205:
        return dict(compact=n.version == 1000, array_id=id // 1000, telescope_id=id % 1000,
                    n_bunches=n.meta['n'], n_photons=np.float32(n.meta['n_photons']))
    if t == 1208:
        return dict(array_id=id // 1000, telescope_id=id % 1000)
    if t == 1201:
        return dict(n_telescopes=n.meta)
    return {}
