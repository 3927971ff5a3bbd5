"""A newer producer's object versions are refused, never misread."""
import random
import struct

from .. import enc, gen, iactgen, low, objs, simtelgen, simtelrun
from ..compare import diff, short
from ..core import BadPlan
from . import C16

ID = 'C23'
QUICK, THOROUGH = 12000, 600000
RULE = ('one simulated run = one file in which a producer of another version wrote some objects (version skew, with the payload '
        'of a known version, changed bytes, more or fewer bytes), intact or torn, in one container, read by one reader class; '
        'non-trivial if at least one object of an unsupported version was met')
REAL = ['all decoders with a version check', 'SimTelFile', 'IACTFile', 'eventio.base', 'gzip module', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['claimed for decoders that check versions (table SUPPORTED); the others do not look at the version',
          'after a refusal a SimTelFile or IACTFile is not used any further; the low-level reader is']

# record kind -> versions its decoder supports
SUPPORTED = {
    'histograms': {1, 2}, 'i_arroff': {0, 1}, 'i_pe': {1, 2, 3}, 'i_atm': {0, 1}, 's_runh': {0, 1, 2}, 's_mcrunh': {4},
    's_camset': {0, 1, 2, 3, 4, 5, 6}, 's_camorg': {1, 2}, 's_pixset': {0, 1, 2, 3}, 's_dispix': {0}, 's_camsoft': {0},
    's_point': {0}, 's_drive': {0}, 's_trig': {0, 1, 2, 3}, 's_track': {0}, 's_telhead': {0, 1, 2, 3, 4}, 's_sums': {3},
    's_samples': {3}, 's_image': {5, 6}, 's_stereo': {1}, 's_timing': {1, 2}, 's_shower': {0, 1, 2}, 's_cammon': {0, 1},
    's_laser': {0, 1, 2, 3}, 's_mcpe': {0, 1, 2}, 's_pixlist': {0, 1}, 's_pixtrig': {0}, 's_pixmon': {0},
}
TYPES = {objs.BUILDERS[k][0]: k for k in SUPPORTED}


def kind_of(n):
    if n.cls == 'TrackingPosition':
        return 's_track'
    return TYPES.get(n.type)


def make(rng, idx, tier):
    what = rng.choice(['low', 'low', 'low', 'simtel', 'simtel', 'iact'])
    plan = dict(what=what, st=gen.storage_spec(rng), io=gen.io_spec(rng), seed=rng.randint(0, 10**9),
                skew=dict(p=rng.choice([0.2, 0.6, 1.0]), how=rng.choice(['same', 'same', 'mode', 'mode', 'more', 'less', 'noise', 'empty'])))
    if what == 'low':
        kinds = sorted(SUPPORTED) + ['s_sums', 's_samples', 's_mcpe'] * 2 * (plan['skew']['how'] == 'mode')
        k = kinds[idx % len(kinds)]
        vs = objs.BUILDERS[k][1]
        tree = []
        for j in range(rng.randint(1, 5)):
            f = dict(gen.rec_spec(rng, k), v=vs[rng.randrange(len(vs))]) if rng.random() < 0.6 else gen.tree_spec(rng, 1, 0.9)
            for _ in range(rng.choice([0, 0, 1, 2])):
                f = dict(gen.cont_spec(rng, 0, 0), c=[f, gen.rec_spec(rng)][:rng.randint(1, 2)])
            tree.append(f)
        plan['tree'] = tree
        if rng.random() < 0.3:
            plan['cut'] = gen.cut_spec(rng)
    elif what == 'simtel':
        plan['run'] = simtelgen.run_spec(rng)
    else:
        plan['run'] = iactgen.run_spec(rng)
    return plan


def other_version(rng, kind):
    sup = SUPPORTED[kind]
    hi = max(sup)
    v = rng.choice([hi + 1, hi + 1, hi + 2, hi + rng.randint(1, 50), 4095, 1000 + hi, hi + 16, hi + 256, hi ^ 1, 0, max(0, min(sup) - 1),
                    rng.randint(0, 4095)])
    return v if v not in sup and 0 <= v < 4096 else hi + 1


def other_mode(rng, n, kind):
    """a known version in a mode that its decoder does not support"""
    if kind in ('s_sums', 's_samples'):
        if rng.random() < 0.6:
            red = 1 << rng.randrange(5) if rng.random() < 0.5 else rng.randint(1, 31)
            n.id = n.id & ~(31 << 5) | red << 5
        elif kind == 's_sums':
            n.id = n.id & ~31 | rng.choice([3, 4, 5, 8, 16, 17, 18, 31])
        else:
            n.id |= 1 << 10                            # the list of pixels is stored elsewhere
        return True
    if kind == 's_mcpe':
        k, = struct.unpack_from('<i', n.payload, 4)
        if k > 0:
            p = bytearray(n.payload)
            struct.pack_into('<i', p, 8 + 4 * k + 4 * rng.randrange(k), rng.choice([1, 1, 5, 1855, -1]))
            n.payload = bytes(p)
            return True
    return False


def skew(rng, n, how):
    if how == 'mode' and other_mode(rng, n, kind_of(n)):
        n.expect = NotImplementedError
        return
    n.version = other_version(rng, kind_of(n))
    n.expect = NotImplementedError
    p = bytearray(n.payload)
    keep = n.fixed
    if how == 'more':
        p += rng.randbytes(rng.choice([1, 4, 40]))
    elif how == 'less':
        del p[max(keep, len(p) - rng.choice([1, 2, 4, 30])):]
    elif how == 'noise' and len(p) > keep:
        for _ in range(rng.randint(1, 6)):
            p[rng.randrange(keep, len(p))] = rng.randrange(256)
    elif how == 'empty':
        del p[keep:]
    n.payload = bytes(p)


def execute(plan, ctx):
    rng = random.Random('skew/%s' % plan['seed'])
    ctx.key += [plan.get('tree'), plan.get('run'), plan['st'], plan['skew'], plan['seed']]
    dict(low=low_level, simtel=simtel, iact=iact)[plan['what']](plan, ctx, rng)


def low_level(plan, ctx, rng):
    nodes, data = gen.realize_file(plan['tree'])
    flat = [n for t in nodes for n, _ in t.walk()]
    if not flat:
        raise BadPlan('empty')
    for n in flat:
        if kind_of(n) and n.children is None and rng.random() < plan['skew']['p']:
            skew(rng, n, plan['skew']['how'])
            ctx.stats['fault:version_skew'] += 1
            ctx.nontrivial = True
    data = enc.encode_file(nodes)
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut']) if plan.get('cut') else gen.Torn(gen.store(data, st), data, len(data), True)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    with ctx.open_world(plan['io']):
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        held = []
        walk(ctx, f, nodes, t, 'file', held)
        if st['fmt'] == 'plain' and t.complete and not plan.get('cut'):
            rng.shuffle(held)
            for o, n, at in held:
                low.decode(ctx, o, n, at)
        f.close()
    ctx.log('low', len(flat))


def walk(ctx, it, nodes, t, at, held):
    for i, n in enumerate(nodes):
        if n.addr + min(n.fixed, n.size) > t.low:
            return
        r = ctx.call(next, it)
        if r[0] != 'ok':
            ctx.fail('lost', '%s[%d]: after refusing an object: %s: %s' % (at, i, r[0], r[1]))
        low.check_header(ctx, r[1], n, '%s[%d]' % (at, i))
        if n.children is not None:
            walk(ctx, r[1], n.children, t, '%s[%d]' % (at, i), held)
        else:
            low.decode(ctx, r[1], n, '%s[%d]' % (at, i), torn=t.eof if n.end > t.low else ())
            held.append((r[1], n, '%s[%d]' % (at, i)))
            if n.expect is NotImplementedError:
                ctx.probe('refused ' + str(kind_of(n)))


def pick(plan, ctx, rng, nodes, unread=()):
    """change one object; -> (index of its top-level object, object), or None if there is nothing to change"""
    c = [(i, n) for i, t in enumerate(nodes) if i not in unread for n, _ in t.walk() if kind_of(n) and n.children is None]
    if not c:
        return None
    # every kind equally often
    kinds = sorted({kind_of(n) for _, n in c})
    k = rng.choice(kinds)
    i, n = rng.choice([x for x in c if kind_of(x[1]) == k])
    skew(rng, n, plan['skew']['how'])
    ctx.stats['fault:version_skew'] += 1
    ctx.nontrivial = True
    return i, n


def read_all(ctx, f):
    got = []
    while True:
        r = ctx.call(next, f)
        if r[0] != 'ok':
            return got, r
        got.append(r[1])


def simtel(plan, ctx, rng):
    tops, n_head, nodes, data = simtelgen.realize(plan['run'])
    # calibration photoelectrons of unexpected structure are left out without being decoded
    got = pick(plan, ctx, rng, nodes, {i for i, t in enumerate(tops) if t.kind == 'calpe' and t.info is None})
    if got is None:   # a file without any object that has a decoder
        return
    i, n = got
    data = enc.encode_file(nodes)
    pre = simtelgen.assemble(tops[:i]).events
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    name = '%s version %d' % (n.cls, n.version)
    with ctx.open_world(plan['io']):
        r = ctx.call(simtelrun.open_simtel, ctx, path, st, simtelrun.ALL)
        got = []
        if r[0] == 'ok':
            f = r[1]
            got, r = read_all(ctx, iter(f))
            f.close()
        if r[0] != 'NotImplementedError':
            ctx.fail('not-refused', 'SimTelFile meets %s in top-level object %d and delivers %d events, then %s: %s' % (
                name, i, len(got), r[0], short(r[1])))
        if not len(pre) - 1 <= len(got) <= len(pre):
            ctx.fail('events', 'SimTelFile delivers %d events before refusing %s, there are %d before it' % (len(got), name, len(pre)))
        for k, (w, g) in enumerate(zip(pre, got)):
            d = simtelrun.ev_diff(w, g, 'event %d' % k)
            if d:
                ctx.fail('events', 'before refusing %s: %s' % (name, d))
    ctx.probe('SimTelFile refused ' + n.cls)
    ctx.log('simtel', name, len(got))


def iact(plan, ctx, rng):
    tops, n_head, nodes, data = iactgen.realize(plan['run'])
    want = iactgen.assemble(tops).events
    got = pick(plan, ctx, rng, nodes)
    if got is None:   # a file without any object that has a decoder
        return
    i, n = got
    data = enc.encode_file(nodes)
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    name = '%s version %d' % (n.cls, n.version)
    with ctx.open_world(plan['io']):
        r = ctx.call(C16.open_iact, ctx, path, st)
        got = []
        if r[0] == 'ok':
            f = r[1]
            got, r = read_all(ctx, iter(f))
            f.close()
        if r[0] != 'NotImplementedError':
            ctx.fail('not-refused', 'IACTFile meets %s in top-level object %d and delivers %d events, then %s: %s' % (
                name, i, len(got), r[0], short(r[1])))
        if len(got) > len(want):
            ctx.fail('events', 'too many events')
        for k, (w, g) in enumerate(zip(want, got)):
            d = diff(w, g, 'event %d' % k)
            if d:
                ctx.fail('events', 'before refusing %s: %s' % (name, d))
    ctx.probe('IACTFile refused ' + n.cls)
    ctx.log('iact', name, len(got))
