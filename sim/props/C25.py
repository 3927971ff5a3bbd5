"""A damaged CORSIKA file (whole objects lost, doubled, displaced) never yields a mixed shower."""
from .. import enc, gen, iactgen as G, objs
from ..compare import diff, short
from ..core import BadPlan
from ..simtelgen import Top, _unk
from . import C16

ID = 'C25'
QUICK, THOROUGH = 8000, 400000
RULE = ('one simulated run = one CORSIKA/IACT file in which the storage lost a stretch of top-level objects, wrote an object '
        'or a stretch of objects twice, exchanged two objects, delivered an old object in place of another or inserted an '
        'object of another product, iterated (twice where possible) under short raw reads and a scheduled gzip helper; '
        'non-trivial if the damage lies behind the header block')
REAL = C16.REAL
STUB = C16.STUB + ['the storage that misplaces whole objects']
ASSUME = ['before the damage the file follows the structure documented in IACTFile',
          'objects carry no checksum: objects of the right kind at the right place are believed, except that the event '
          'numbers of the header and the end block of a shower must agree']

OTHER = ['', 's_stereo', 'i_pe', 's_runh', 's_mcpe', 's_point', 's_drive', 'histograms']


def make(rng, idx, tier):
    n = rng.choice([1, 1, 1, 1, 2])
    dmg = []
    for _ in range(n):
        k = rng.choice(['lose', 'lose', 'lose', 'dup', 'swap', 'swap', 'stale', 'foreign', 'move', 'inner'])
        dmg.append([k, rng.randint(0, 10**6), rng.choice([1, 1, 1, 2, 3, rng.randint(1, 12)]),
                    rng.choice([0, 1, 1, 2, rng.randint(0, 30)])])
    return dict(run=G.run_spec(rng), st=gen.storage_spec(rng), io=gen.io_spec(rng), dmg=dmg,
                head=int(rng.random() < 0.15), peek=int(rng.random() < 0.2), again=int(rng.random() < 0.5))


def damage(tops, dmg, n_head, sc):
    """the objects as the storage delivers them"""
    seq, marked = list(tops), set()
    for k, a, n, b in dmg:
        lo = n_head if n_head < len(seq) else 0
        i = lo + a % max(1, len(seq) - lo)
        if i >= len(seq):
            continue
        if k == 'lose':
            del seq[i:i + n]
        elif k == 'dup':
            part = seq[i:i + n]
            at = i + n + b
            seq[at:at] = part
        elif k == 'swap':
            j = min(len(seq) - 1, i + n)
            seq[i], seq[j] = seq[j], seq[i]
        elif k == 'stale':
            seq[i] = seq[max(0, i - 1 - b)]
        elif k == 'move':
            part = seq[i:i + n]
            del seq[i:i + n]
            at = max(0, i + b - 3)
            seq[at:at] = part
        elif k in ('foreign', 'inner'):
            name = OTHER[b % len(OTHER)]
            node = objs.build(name, a, None, sc) if name else _unk(a)
            if k == 'foreign':
                seq.insert(i, Top('other', node))
                continue
            # among the photons of the telescopes of one use
            tds = [t for t in seq if t.kind == 'teldata']
            if tds:
                t = tds[a % len(tds)]
                if n > 1:
                    node = objs.build('i_photons', a, 0, sc, n=n, particles=True)
                    marked.add(id(t.node))
                t.node.children.insert(b % (len(t.node.children) + 1), node)
        else:
            raise BadPlan(k)
        if not seq:
            break
    return seq, marked


def reference(seq, marked):
    """Read the sequence by the documented structure.

    Returns (header tops or None, events, end): every event is (event, sure); unsure events may be refused.
    end is 'clean' or 'error'.
    """
    kinds = [t.kind for t in seq]
    n = 3
    if kinds[:2] != ['runh', 'card']:
        return None, [], 'error'
    if kinds[2:3] == ['atm']:
        n = 4
    if kinds[n - 1:n] != ['teldef']:
        return None, [], 'error'
    head, events, i = seq[:n], [], n

    def at(j):
        return kinds[j] if j < len(kinds) else None
    while True:
        if at(i) == 'rune':
            return head, events, 'clean'
        if at(i) != 'evth' or at(i + 1) != 'arroff':
            return head, events, 'error'
        cur = [seq[i], seq[i + 1]]
        n_use = len(seq[i + 1].node.meta[1][0])
        i += 2
        sure, seen = True, set()
        while at(i) in ('lon', 'par', 'other', 'runh', 'card', 'atm', 'teldef'):
            # anything else between offsets and telescope data may be ignored or refused
            sure = sure and kinds[i] in ('lon', 'par') and kinds[i] not in seen
            seen.add(kinds[i])
            if kinds[i] in ('lon', 'par'):
                cur.append(seq[i])
            i += 1
        split = at(i) == 'ahead'
        for u in range(n_use):
            ps = []
            if split:
                if at(i) != 'ahead':
                    return head, events, 'error'
                i += 1
                while at(i) == 'photons':
                    ps += seq[i].info[2]
                    i += 1
                if at(i) != 'aend':
                    return head, events, 'error'
                i += 1
            else:
                if at(i) != 'teldata':
                    return head, events, 'error'
                ps += seq[i].info[2]
                sure = sure and id(seq[i].node) not in marked
                i += 1
            if len({t for t, _ in ps}) < len(ps):
                sure = False                       # a telescope twice in one use
            cur.append(Top('photons', None, (None, u, ps)))
        if at(i) != 'evte' or number(seq[i]) != number(cur[0]):
            return head, events, 'error'
        cur.append(seq[i])
        i += 1
        events += [(e, sure) for e in G.assemble(cur).events]


def number(top):
    return int(top.node.expect['event_number'].item())


def execute(plan, ctx):
    tops, n_head, nodes, data = G.realize(plan['run'])
    if not plan['dmg']:
        raise BadPlan('no damage')
    seq, marked = damage(tops, plan['dmg'], 0 if plan['head'] else n_head, plan['run']['sc'])
    if not seq:
        raise BadPlan('nothing is left')
    data = enc.encode_file([t.node for t in seq])
    for d in plan['dmg']:
        ctx.stats['fault:objects_' + {'lose': 'lost', 'dup': 'doubled', 'swap': 'exchanged', 'stale': 'stale',
                                      'move': 'displaced', 'foreign': 'foreign', 'inner': 'foreign_inside'}[d[0]]] += 1
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(data, st))
    ctx.key += [[t.kind for t in seq], plan['run'], st]
    head, want, end = reference(seq, marked)
    order = ' '.join(t.kind for t in seq)[:300]
    with ctx.open_world(plan['io']):
        r = ctx.call(C16.open_iact, ctx, path, st)
        if head is None:
            if r[0] == 'ok':
                ctx.fail('open', 'opened although the header block is damaged: %s' % order)
            ctx.probe('damaged header block refused')
            ctx.log('refused')
            return
        if r[0] != 'ok':
            ctx.fail('open', 'the header block is complete, but opening raises %s: %s' % (r[0], r[1]))
        f = r[1]
        d = C16.head_diff(G.assemble(head), f)
        if d:
            ctx.fail('header', d)
        if plan['peek']:
            ctx.call(f.peek)
        last = None
        for turn in range(1 + plan['again'] * (st['fmt'] in ('plain', 'gzpy'))):
            it, n = iter(f), 0
            while True:
                r = ctx.call(next, it)
                if r[0] != 'ok':
                    break
                if n >= len(want):
                    ctx.fail('extra', 'event %d delivered, only %d can be put together from: %s' % (n, len(want), order))
                d = C16.ev_diff(want[n][0], r[1], 'event %d' % n)
                if d:
                    ctx.fail('event', '%s; objects: %s' % (d, order))
                n += 1
            if r[0] == 'StopIteration':
                if n < len(want):
                    ctx.fail('missing', 'ends cleanly after %d of %d events: %s' % (n, len(want), order))
                if end != 'clean':
                    ctx.fail('silent', 'ends cleanly after %d events despite: %s' % (n, order))
                d = diff(G.assemble([t for t in seq if t.kind == 'rune'][:1]).run_end, f.run_end, 'run_end')
                if d:
                    ctx.fail('run_end', d)
                ctx.probe('harmless damage')
            else:
                if not isinstance(r[1], Exception):
                    ctx.fail('error', '%s: %s' % (r[0], r[1]))
                if n < len(want) and want[n][1]:
                    ctx.fail('refused', 'event %d is complete, but reading it raises %s: %s; objects: %s' % (n, r[0], r[1], order))
                if n >= len(want) and end == 'clean':
                    ctx.fail('refused', '%s: %s after all %d events: %s' % (r[0], r[1], n, order))
                ctx.probe('damage reported')
            if last is not None and last != (n, r[0]):
                ctx.fail('again', 'a second iteration gives %s, the first %s' % ((n, r[0]), last))
            last = n, r[0]
        f.close()
    ctx.nontrivial = not plan['head']
    ctx.log('events', n, r[0])
