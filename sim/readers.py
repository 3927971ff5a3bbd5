"""The three kinds of reader behind one interface, for properties that concern all of them.

An item is what a user takes out of a reader in one step: a complete low-level object
(header, payload, all sub-objects), a sim_telarray event or a CORSIKA event.
"""
from . import gen, iactgen, low, simtelgen, simtelrun
from .compare import diff, short, snapshot
from .core import BadPlan
from .props import C16

KINDS = ('low', 'low', 'simtel', 'simtel', 'iact')


def make(rng, kinds=KINDS, small=False):
    k = rng.choice(list(kinds))
    if k == 'low':
        return dict(k=k, tree=gen.file_spec(rng, 1, 4 if small else 8, rng.choice([0, 1, 2]), rng.choice([0.2, 0.6])))
    if k == 'simtel':
        run = simtelgen.run_spec(rng)
        if small:
            run['items'] = run['items'][:12]
            run['tels'] = run['tels']
        return dict(k=k, run=run, opt=simtelgen.options_spec(rng, run['tels']) if rng.random() < 0.3 else simtelrun.ALL)
    run = iactgen.run_spec(rng)
    return dict(k=k, run=run)


class Case:
    def __init__(self, plan):
        self.plan, self.k = plan, plan['k']
        self.tops = None
        if self.k == 'low':
            self.nodes, self.data = gen.realize_file(plan['tree'])
            if not self.nodes:
                raise BadPlan('empty')
            self.want = [tree(n, self.data) for n in self.nodes]
            self.n_head = 0
        elif self.k == 'simtel':
            self.tops, self.n_head, self.nodes, self.data = simtelgen.realize(plan['run'])
            self.ref = simtelgen.assemble(self.tops, plan['opt']['tels'])
            self.want = [e for e in self.ref.events if simtelgen.selected(e, plan['opt'])]
        else:
            self.tops, self.n_head, self.nodes, self.data = iactgen.realize(plan['run'])
            self.ref = iactgen.assemble(self.tops)
            self.want = self.ref.events

    def open(self, ctx, path, st):
        if self.k == 'low':
            return low.open_low(ctx, path, st)
        if self.k == 'simtel':
            return simtelrun.open_simtel(ctx, path, st, self.plan['opt'])
        return C16.open_iact(ctx, path, st)

    def steps(self, f):
        """iterator over items; one step materialises one item completely"""
        if self.k == 'low':
            return LowSteps(f)
        return iter(f)

    def diff(self, i, got):
        w = self.want[i]
        name = 'item %d' % i
        if self.k == 'low':
            d = low_diff(w, got)
            return None if d is None else '%s: %s' % (name, d)
        if self.k == 'simtel':
            return simtelrun.ev_diff(w, got, 'event %d (%s %s)' % (i, w['type'], w['event_id']))
        return diff(w, got, 'event %d (shower %s use %s)' % (i, w['event_number'], w['reuse']))

    def head_diff(self, f):
        if self.k == 'iact':
            return C16.head_diff(self.ref, f)
        if self.k == 'simtel':
            return diff(self.ref.header, f.header, 'header')


def tree(node, data):
    h = node.header_tuple()
    if node.children is not None:
        return h, [tree(c, data) for c in node.children]
    return h, data[node.addr:node.end]


class LowSteps:
    def __init__(self, f):
        self.f = f

    def __iter__(self):
        return self

    def __next__(self):
        return whole(next(self.f))


def whole(o):
    h = low.header_of(o)
    if h[5]:
        out = []
        for s in o:
            out.append(whole(s))
        return h, out
    # classes that look at leading fields on opening leave the cursor behind them
    pos = o.tell()
    return h, pos, bytes(o.read())


def low_diff(w, g):
    if w[0] != g[0]:
        return 'header %s, stored %s' % (g[0], w[0])
    if isinstance(w[1], list):
        if not isinstance(g[1], list) or len(g[1]) != len(w[1]):
            return 'sub-objects %s, stored %s' % (short(g[1]), short(w[1]))
        for a, b in zip(w[1], g[1]):
            d = low_diff(a, b)
            if d:
                return d
        return None
    _, pos, body = g
    if body != w[1][pos:]:
        return 'payload from %d differs: %d bytes %s, stored %d bytes %s' % (
            pos, len(body), short(body[:40]), len(w[1]), short(w[1][pos:pos + 40]))
    return None


def prefix_ok(case, n, got):
    """An item handed out when the source broke off: is it an honest part of item `n`?"""
    if case.k != 'simtel':
        return False
    if not isinstance(got, dict):
        return False
    # any prefix of the stored objects may be what was assembled
    for k in range(len(case.tops), case.n_head - 1, -1):
        ref = simtelgen.assemble(case.tops[:k], case.plan['opt']['tels'])
        sel = [e for e in ref.events if simtelgen.selected(e, case.plan['opt'])]
        if len(sel) == n + 1 and simtelrun.ev_diff(sel[n], got, 'e') is None:
            return True
    return False
