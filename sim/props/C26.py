"""A damaged payload never takes the process down or affects another record."""
import array
import ctypes
import random
import resource

from .. import damage, enc, gen, iactgen, low, objs, simtelgen, simtelrun as R
from ..compare import diff, same, short, snapshot
from ..core import BadPlan
from . import C16

ID = 'C26'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one file with the payload of one stored top-level object damaged (bit flips, lost, stale or '
        'random bytes, overwritten numbers, at any nesting level, its own header excepted), read by the low-level reader in '
        'some order, by SimTelFile, by IACTFile or by the search walk; non-trivial if the damaged object was reached')
REAL = ['eventio.base', 'all parse() methods', 'compiled decoders', 'eventio.SimTelFile', 'eventio.IACTFile',
        'eventio.search_utils', 'corsikaio', 'zlib', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, buffer sizes)', 'clock', 'contents of unused memory']
ASSUME = ['no value is claimed for the damaged record itself', 'the process may use 1 GiB more memory than at the start']


def make(rng, idx, tier):
    while True:
        plan = draw(rng, idx)
        # something must be there to be damaged
        if 'tree' not in plan:
            return plan
        nodes = gen.realize_file(plan['tree'])[0]
        if shortenable(nodes) if plan['mode'] == 'short' else any(n.end > n.addr for n in nodes):
            return plan
        idx += 6


def shortenable(nodes):
    return [n for t in nodes for n, _ in t.walk() if n.children is None and len(n.payload) > n.fixed
            and n.name not in TEXT and n.name != 'raw' and n.expect is not NotImplementedError]


def draw(rng, idx):
    mode = ('low', 'low', 'sim', 'iact', 'walk', 'short')[idx % 6]
    plan = dict(mode=mode, d=damage.spec(rng), at=rng.randint(0, 10**6), io=gen.io_spec(rng), seed=rng.randint(0, 10**9),
                st=gen.storage_spec(rng, ('plain', 'plain', 'gz', 'zst', 'gzpy')))
    if mode == 'sim':
        plan['run'] = simtelgen.run_spec(rng)
    elif mode == 'iact':
        plan['run'] = iactgen.run_spec(rng)
    else:
        kinds = sorted(objs.BUILDERS)
        kind = kinds[(idx // 6) % len(kinds)]
        f = gen.rec_spec(rng, kind)
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = gen.cont_spec(rng, 0, 0)
            c['c'] = [gen.tree_spec(rng, 0) for _ in range(rng.randint(0, 1))] + [f] + [
                gen.tree_spec(rng, 0) for _ in range(rng.randint(0, 1))]
            f = c
        # same kind once more, so that what one decoder leaves behind would meet its next use
        plan['tree'] = [gen.tree_spec(rng, 1, 0.8) for _ in range(rng.randint(0, 2))] + [f] + [
            dict(gen.rec_spec(rng, kind)) for _ in range(rng.randint(0, 2))]
        plan['at'] = rng.choice([plan['at'], len(plan['tree']) * 1000 + plan['tree'].index(f)])
        if mode == 'short':
            plan['short'] = rng.choice([1, 1, 2, 3, 4, 5, 8, rng.randint(1, 40), rng.randint(1, 2000)])
            plan['d'] = []
            for t in plan['tree']:
                unpadded(t)
        plan['order'] = rng.choice(['forward', 'late', 'first', 'shuffled'])
    return plan


def unpadded(sp):
    if 'c' in sp:
        for c in sp['c']:
            unpadded(c)
    elif sp['k'] != 'raw':
        sp['pad'] = False


# the last thing stored in these records is a text
TEXT = ('hist_cmd', 'hist_cfg', 'hist_meta', 'i_card', 's_runh')
_mallopt = None


def memory(pattern):
    """Unused memory (what a reader must never look at) gets this contents."""
    global _mallopt
    if _mallopt is None:
        _mallopt = ctypes.CDLL(None).mallopt
    _mallopt(-6, pattern)
    fill = bytes([pattern])
    # every size class of the small object allocator, completely; larger blocks are filled by the C library
    junk = [array.array('B', fill) * n for n in range(16, 520, 16) for _ in range(400)] + [fill * (n * 512) for n in range(1, 40)]
    del junk


def bounded():
    """memory is limited as in a batch system, so that an absurd length is refused and not served"""
    with open('/proc/self/statm') as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + (1 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))


class Enough(Exception):
    pass


def outcome(ctx, fn, *a):
    r = ctx.call(fn, *a)
    ctx.memory_error |= r[0] == 'MemoryError'
    if r[0] == 'ok':
        return 'ok', snapshot(r[1]) if extent(r[1]) < 1 << 22 else None
    if not isinstance(r[1], Exception):
        ctx.fail('error', 'a damaged payload makes decoding raise %s: %s' % r)
    return r[0], None


def extent(x):
    """bytes of all arrays in a result"""
    if hasattr(x, 'nbytes'):
        return int(x.nbytes)
    if isinstance(x, dict):
        return sum(extent(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return sum(extent(v) for v in x) + len(x)
    return 0


def agree(a, b):
    if 'MemoryError' in (a[0], b[0]):
        return None             # how much memory is left may differ
    if a[0] != b[0]:
        return '%s, then %s' % (a[0], b[0])
    if (a[1] is None) != (b[1] is None):
        return 'results of different size'
    return None if a[1] is None else same(a[1], b[1], 'value')


def explore(ctx, o, size, depth=0):
    """iterate and decode whatever a damaged container seems to hold; only its end is claimed"""
    n = 0
    while True:
        r = ctx.call(next, o)
        if r[0] != 'ok':
            if not isinstance(r[1], Exception):
                ctx.fail('error', 'iterating a damaged container raises %s: %s' % r)
            return
        n += 1
        if n > size // 12 + 2:
            ctx.fail('endless', 'a damaged container of a file of %d bytes delivered %d sub-objects' % (size, n))
        c = r[1]
        ctx.probe('objects in damaged containers')
        if depth < 3 and c.only_subobjects:
            explore(ctx, c, size, depth + 1)
        memory(0x5a)
        a = outcome(ctx, c.parse)
        memory(0xa5)
        d = agree(a, outcome(ctx, c.parse))
        if d:
            ctx.fail('unstable', 'a %s in a damaged container: decoding it again gives something else: %s' % (
                type(c).__name__, d))


def low_mode(plan, ctx, walk=False):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    k = damage.target(nodes, plan['at'])
    bad = damage.apply(data, nodes[k], plan['d'])
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(bad, st))
    ctx.key += [plan['tree'], plan['d'], k, st, plan['order']]
    ctx.stats['fault:damaged_payload'] += bad != data
    seekable = st['fmt'] in ('plain', 'gzpy')
    order = plan['order'] if seekable else 'forward'
    rng = random.Random('c26/%s' % plan['seed'])
    with ctx.open_world(plan['io']):
        bounded()
        if walk:
            return tree_walk(ctx, path, st, nodes, k, bad)
        f = low.open_low(ctx, path, st)
        held = []
        seen = []

        def one(o, i):
            at, node = 'file[%d]' % i, nodes[i]
            if i != k:
                if node.children is None:
                    low.decode(ctx, o, node, at)
                else:
                    low.walk(ctx, o, node.children, bad, rng, at)
                return
            ctx.probe('damaged object decoded')
            memory(0x5a)
            a = outcome(ctx, o.parse)
            ctx.stats['probe:damaged: %s' % a[0]] += 1
            seen.append(a)
            if not seekable:
                # a damaged sub-object may reach beyond its container, there is no way back from there
                return
            memory(0xa5)
            b = outcome(ctx, o.parse)
            d = agree(a, b)
            if d:
                ctx.fail('unstable', '%s (%s v%d, damaged): decoding it again gives something else: %s' % (
                    at, node.name, node.version, d))
            if ctx.memory_error and st['fmt'] == 'gzpy':
                # Python's gzip module does not survive one, that is not the property of this reader
                raise Enough
            o.seek(0)
            low.read_some(ctx, o, FixedNone(node), bad, rng, at)
            if o.only_subobjects:
                explore(ctx, o, len(bad))
                if ctx.memory_error and st['fmt'] == 'gzpy':
                    raise Enough

        for i, node in enumerate(nodes):
            r = ctx.call(next, f)
            if r[0] != 'ok':
                ctx.fail('lost', 'file[%d]: %s: %s, although no header is damaged (payload of %d is)' % (i, r[0], r[1], k))
            o = r[1]
            if i != k:
                low.check_header(ctx, o, node, 'file[%d]' % i)
            elif low.header_of(o) != node.header_tuple():
                ctx.fail('header', 'file[%d]: %s, stored %s' % (i, low.header_of(o), node.header_tuple()))
            if order == 'forward' or order == 'first' and i == k:
                one(o, i)
            else:
                held.append((o, i))
        if order == 'shuffled':
            rng.shuffle(held)
        for o, i in held:
            one(o, i)
        r = ctx.call(next, f)
        if r[0] != 'StopIteration':
            ctx.fail('end', 'after the last object: %s %s' % (r[0], short(r[1])))
        ctx.call(f.close)
        if seekable and seen:
            # the same record in a fresh reader
            f = low.open_low(ctx, path, st)
            for i in range(k + 1):
                o = next(f)
            d = agree(seen[0], outcome(ctx, o.parse))
            if d:
                ctx.fail('unstable', 'file[%d] (%s v%d, damaged): a new reader decodes something else: %s' % (
                    k, nodes[k].name, nodes[k].version, d))
            f.close()
    ctx.nontrivial = bool(seen)
    ctx.log('damaged', k, seen[0][0] if seen else None)


def short_mode(plan, ctx):
    """a record that ends before the numbers it announces do, although its header fits"""
    nodes, data = gen.realize_file(plan['tree'])
    leaves = shortenable(nodes)
    if not leaves or plan['short'] < 1:
        raise BadPlan('nothing to shorten')
    leaf = leaves[plan['at'] % len(leaves)]
    whole = len(leaf.payload)
    leaf.payload = leaf.payload[:max(leaf.fixed, whole - plan['short'])]
    data = enc.encode_file(nodes)
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    ctx.key += [plan['tree'], st, plan['at'], plan['short']]
    ctx.stats['fault:short_record'] += 1
    rng = random.Random('c26/%s' % plan['seed'])

    def walk(it, nodes, where):
        for i, n in enumerate(nodes):
            at = '%s[%d]' % (where, i)
            r = ctx.call(next, it)
            if r[0] != 'ok':
                ctx.fail('lost', '%s: %s: %s, although all headers are intact' % ((at,) + r))
            o = r[1]
            if n.children is not None:
                walk(o, n.children, at)
            elif n is leaf:
                memory(rng.randint(1, 255))
                r = outcome(ctx, o.parse)
                if r[0] == 'ok':
                    ctx.fail('made-up', '%s: %s v%d has only %d of %d bytes, but is decoded: %s' % (
                        at, n.name, n.version, len(n.payload), whole, short(r[1])))
                ctx.probe('short record refused: %s' % r[0])
            else:
                low.check_header(ctx, o, n, at)
                low.decode(ctx, o, n, at)

    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, st)
        walk(f, nodes, 'file')
        f.close()
    ctx.nontrivial = True
    ctx.log('short', leaf.name, leaf.version, whole, len(leaf.payload))


class FixedNone:
    """a node whose object was sought back to its first byte"""
    def __init__(self, n):
        self.addr, self.end, self.fixed, self.size = n.addr, n.end, 0, n.size


def tree_walk(ctx, path, st, nodes, k, bad):
    from eventio import EventIOFile
    from eventio.search_utils import yield_all_objects_depth_first
    f = low.open_low(ctx, path, st)
    it = yield_all_objects_depth_first(f)
    want = [(n, d) for t in nodes[:k] for n, d in t.walk()]
    n, tops = 0, 0
    limit = 64 * (len(bad) // 12 + 2)
    while True:
        r = ctx.call(next, it)
        if r[0] != 'ok':
            break
        o, level = r[1]
        if n < len(want):
            if low.header_of(o) != want[n][0].header_tuple() or level != want[n][1]:
                ctx.fail('walk', 'object %d: %s at level %s, stored is %s at level %d' % (
                    n, low.header_of(o), level, want[n][0].header_tuple(), want[n][1]))
        if level == 0:
            if tops >= len(nodes) or low.header_of(o) != nodes[tops].header_tuple():
                ctx.fail('walk', 'top-level object %d: %s' % (tops, low.header_of(o)))
            tops += 1
        n += 1
        if n > limit:
            ctx.fail('endless', 'walking a file of %d bytes gave %d objects' % (len(bad), n))
    if not isinstance(r[1], Exception):
        ctx.fail('error', 'walking a damaged file raises %s: %s' % r)
    if r[0] == 'StopIteration' and tops < len(nodes) and not R.eof_warnings(ctx):
        ctx.fail('silent', 'the walk ends without error or warning after %d of %d top-level objects' % (tops, len(nodes)))
    if n < len(want):
        ctx.fail('walk', 'the walk ends with %s after %d objects, %d are in front of the damage' % (r[0], n, len(want)))
    f.close()
    ctx.nontrivial = n > len(want)
    ctx.log('walk', n, r[0])


# ------------------------------------------------------------------ events
def affected_sim(tops, k, n):
    """(indices of events that may differ, keys that may differ in the others)"""
    kind = tops[k].kind
    after = lambda j: len(simtelgen.assemble(tops[:j]).events)
    if kind in ('mcevent', 'teldata', 'mcpe', 'array', 'calib', 'calarray'):
        return {after(k + 1) - 1}, None
    if kind == 'calpe':
        return {i for i in range(after(k), n)}, None
    if kind in ('shower', 'obspart'):
        j = k + 1
        while j < len(tops) and tops[j].kind != 'shower':
            j += 1
        return set(range(after(k), after(j))), None
    if kind in simtelgen.MONI:
        return set(), simtelgen.MONI[kind]
    return set(), None


def affected_iact(tops, k):
    j = tops[k].info if not isinstance(tops[k].info, tuple) else tops[k].info[0]
    out, n = set(), 0
    for t in tops:
        if t.kind == 'evte':
            m = iactgen.assemble(tops[:tops.index(t) + 1]).events
            if t.info == j:
                out |= set(range(n, len(m)))
            n = len(m)
    return out


def sim_mode(plan, ctx, sim):
    G = simtelgen if sim else iactgen
    tops, n_head, nodes, data = G.realize(plan['run'])
    k = damage.target(nodes, plan['at'])
    bad = damage.apply(data, nodes[k], plan['d'])
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(bad, st))
    ctx.key += [plan['run'], plan['d'], k, st]
    ctx.stats['fault:damaged_payload'] += bad != data
    ref = G.assemble(tops)
    want = ref.events
    if sim:
        skip, key = affected_sim(tops, k, len(want))
    else:
        skip, key = (affected_iact(tops, k) if k >= n_head and tops[k].kind != 'rune' else set()), None
    kind = tops[k].kind
    where = 'object %d (%s) is damaged' % (k, kind)
    since = len(ctx.warnings)
    with ctx.open_world(plan['io']):
        bounded()
        r = ctx.call(R.open_simtel, ctx, path, st, R.ALL) if sim else ctx.call(C16.open_iact, ctx, path, st)
        if r[0] != 'ok':
            if not isinstance(r[1], Exception):
                ctx.fail('error', '%s: opening raises %s: %s' % ((where,) + r))
            if k >= n_head:
                ctx.fail('open', '%s, behind the run header, but opening raises %s: %s' % ((where,) + r))
            ctx.nontrivial = True
            ctx.log('refused', kind, r[0])
            return
        f = r[1]
        it = iter(f)
        first = len(G.assemble(tops[:k]).events)
        i = 0
        while True:
            r = ctx.call(next, it)
            if r[0] != 'ok':
                break
            if i > len(tops):
                ctx.fail('endless', '%s: %d events from %d objects' % (where, i, len(tops)))
            if i >= len(want):
                ctx.fail('extra', '%s: event %d delivered, stored are %d' % (where, i, len(want)))
            if i not in skip:
                w, g = want[i], r[1]
                if key:
                    w, g = ({a: {t: m for t, m in b.items() if t != tops[k].info} if a == key else b for a, b in x.items()}
                            for x in (w, g))
                d = R.ev_diff(w, g, 'event %d' % i) if sim else diff(w, g, 'event %d' % i)
                if d:
                    ctx.fail('event', '%s: another event is changed: %s' % (where, d))
            else:
                ctx.probe('events holding damaged data')
            i += 1
        if not isinstance(r[1], Exception):
            ctx.fail('error', '%s: reading raises %s: %s' % ((where,) + r))
        if i < min([first] + sorted(skip)) - (sim and r[0] != 'StopIteration'):
            ctx.fail('missing', '%s: %s after %d events, %d are stored before it' % (where, r[0], i, first))
        if r[0] == 'StopIteration' and i < len(want) and not (sim and R.eof_warnings(ctx, since)):
            ctx.fail('silent', '%s: iteration ends without error or warning after %d of %d events' % (where, i, len(want)))
        ctx.stats['probe:reading: %s' % r[0]] += 1
        f.close()
    ctx.nontrivial = True
    ctx.log('damaged', k, kind, r[0], i)


def execute(plan, ctx):
    ctx.memory_error = False
    if plan['mode'] == 'low':
        try:
            low_mode(plan, ctx)
        except Enough:
            ctx.probe('stopped after MemoryError in the gzip module')
    elif plan['mode'] == 'walk':
        low_mode(plan, ctx, True)
    elif plan['mode'] == 'short':
        short_mode(plan, ctx)
    else:
        sim_mode(plan, ctx, plan['mode'] == 'sim')
