"""Concurrently open readers do not influence each other."""
from .. import gen, readers, threads
from ..compare import same, short, snapshot
from ..core import BadPlan, clear_caches

ID = 'C18'
QUICK, THOROUGH = 3000, 120000
RULE = ('one simulated run = two or three readers of any class over files of different content, versions and array sizes '
        '(some torn, some the same file), each first read alone and then all together: step-interleaved in one thread or in '
        'real threads of which one runs at a time and which are preempted at planned source lines and I/O calls; every third run '
        'lets threads decode objects of one kind (all kinds in turn) and preempts them at nearly every line; non-trivial '
        'if at least three switches between readers took place')
REAL = ['EventIOFile', 'SimTelFile', 'IACTFile', 'all decoders and module state', 'Python threads']
STUB = ['thread scheduler (decides which thread runs)', 'gzip helper process and its pipe', 'raw file layer (short reads)', 'clock']
ASSUME = ['each reader is used by one thread at a time', 'compiled decoders are not preempted (they hold the interpreter lock)']


def make(rng, idx, tier):
    if idx % 3 == 0:
        return race(rng, idx // 3)
    n = rng.choice([2, 2, 3])
    cases = [dict(case=readers.make(rng, small=True), st=gen.storage_spec(rng), dec=int(rng.random() < 0.7),
                  cut=dict(gen.cut_spec(rng), where='content') if rng.random() < 0.3 else None) for _ in range(n)]
    if rng.random() < 0.4:
        # the same kind of object in other versions and sizes: most likely to share hidden state
        kind = rng.choice(list(gen.PARSEABLE))
        for c in cases:
            c['case'] = dict(k='low', tree=[gen.rec_spec(rng, kind) for _ in range(rng.randint(1, 5))])
            c['dec'] = 1
    same_file = rng.random() < 0.2
    plan = dict(cases=cases, share=int(same_file), io=gen.io_spec(rng))
    if rng.random() < 0.35:
        plan['order'] = [rng.randint(0, n - 1) for _ in range(rng.randint(1, 60))]
    else:
        gap = rng.choice([0, 1, 2, 5, 10, 60, 400])
        plan['switches'] = [[rng.randint(0, 2 * gap), rng.randint(0, 5)] for _ in range(rng.choice([1, 3, 30, 200]))]
        plan['rep'] = rng.choice([1, 1, 10, 50]) if len(plan['switches']) < 100 else rng.choice([1, 5, 10])
        plan['hot'] = int(rng.random() < 0.4)
    return plan


def race(rng, i):
    """objects of one kind, opened before, are decoded by several threads preempted at nearly every line"""
    kind = gen.PARSEABLE[i % len(gen.PARSEABLE)]
    n = rng.choice([2, 2, 3])
    io = gen.io_spec(rng, helper=False)
    return dict(
        cases=[dict(case=dict(k='low', tree=[gen.rec_spec(rng, kind, rng.choice([0, 1, 1])) for _ in range(rng.randint(1, 4))]),
                    st=dict(fmt='plain'), dec=2, cut=None) for _ in range(n)],
        share=0, io=io, rep=50, hot=1,
        switches=[[rng.choice([0, 0, 1, 2, 3, 6]), rng.randint(0, 5)] for _ in range(rng.choice([7, 40]))],
        times=rng.choice([1, 3, 8]))


class Use:
    """one reader and everything that came out of it"""

    def __init__(self, ctx, case, path, st, dec):
        self.ctx, self.case, self.path, self.st, self.dec = ctx, case, path, st, dec
        self.f = self.steps = self.end = None
        self.items = []

    def step(self):
        ctx = self.ctx
        if self.end is not None:
            return False
        if self.f is None:
            r = ctx.call(self.case.open, ctx, self.path, self.st)
            if r[0] != 'ok':
                self.end = 'open: ' + r[0]
                return False
            self.f = r[1]
            self.steps = Decode(ctx, self.f) if self.case.k == 'low' and self.dec else self.case.steps(self.f)
            return True
        r = ctx.call(next, self.steps)
        if r[0] != 'ok':
            self.end = r[0]
            return False
        self.items.append(snapshot(r[1]))
        return True

    def prepare(self, times):
        """open and collect the objects, so that only decoding is left to do"""
        if self.dec != 2:
            return
        self.f = self.case.open(self.ctx, self.path, self.st)
        objects = list(self.f)
        self.steps = iter(objects * times)

    def all(self):
        if self.dec == 2:
            for o in self.steps:
                r = self.ctx.call(o.parse)
                self.items.append(snapshot([r[0], r[1] if r[0] == 'ok' else None]))
            self.end = 'decoded'
        while self.step():
            pass

    def rest(self):
        """what the reader exposes besides its items"""
        f = self.f
        if f is None or self.case.k == 'low':
            return None
        names = ('header', 'history', 'mc_run_headers', 'corsika_inputcards', 'atmospheric_profiles', 'n_telescopes',
                 'telescope_meta', 'global_meta', 'histograms') if self.case.k == 'simtel' else (
                     'header', 'input_card', 'atmospheric_profile', 'n_telescopes', 'telescope_positions')
        out = {n: snapshot(getattr(f, n)) for n in names}
        if self.case.k == 'simtel':
            out['descr'] = snapshot(dict(f.telescope_descriptions))
        return out


class Decode:
    """decoded content of every object"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def __next__(self):
        return self.one(next(self.f))

    def one(self, o):
        from ..low import header_of
        h = header_of(o)
        if h[5]:
            return [h, [self.one(s) for s in o]]
        r = self.ctx.call(o.parse)
        if r[0] == 'EOFError':
            raise r[1]
        return [h, r[0], r[1] if r[0] == 'ok' else None]


def execute(plan, ctx):
    specs = plan['cases']
    if len(specs) < 2:
        raise BadPlan('one reader')
    uses, alone = [], []
    times = plan.get('times', 1)
    if not 0 < times < 20:
        raise BadPlan('times')
    files = []
    for i, c in enumerate(specs):
        if plan['share'] and files:
            files.append(files[0])
            continue
        case = readers.Case(c['case'])
        st = c['st']
        data = case.data
        if c['cut']:
            data = gen.torn(case.data, case.nodes, dict(fmt='plain'), c['cut']).content
            ctx.stats['fault:torn_file'] += 1
        path = ctx.write('f%d%s' % (i, gen.SUFFIX[st['fmt']]), gen.store(data, st))
        files.append((case, path, st, c['dec'], bool(c['cut'])))
    ctx.key += [plan['cases'], plan.get('order'), plan.get('switches')]
    for i, (case, path, st, dec, torn) in enumerate(files):
        clear_caches()
        with ctx.open_world(plan['io'], budget=1500000):
            u = Use(ctx, case, path, st, dec)
            u.prepare(times)
            u.all()
            u.other = u.rest()
            if not torn and not (case.k == 'low' and dec):
                if u.end != 'StopIteration' or len(u.items) != len(case.want):
                    ctx.fail('alone', 'reader %d alone: %d of %d items, then %s' % (i, len(u.items), len(case.want), u.end))
                for k, got in enumerate(u.items):
                    d = case.diff(k, got)
                    if d:
                        ctx.fail('alone', 'reader %d alone: %s' % (i, d))
            if u.f is not None:
                u.f.close()
            u.f = u.steps = None
            alone.append(u)
        ctx.close_world()
    clear_caches()
    switches = 0
    with ctx.open_world(plan['io'], budget=3000000) as w:
        uses = [Use(ctx, *f[:4]) for f in files]
        for u in uses:
            u.prepare(times)
        if 'order' in plan:
            last = None
            for k in plan['order']:
                u = uses[k % len(uses)]
                u.step()
                switches += last is not None and last is not u
                last = u
            k = 0
            while any(u.end is None for u in uses):
                uses[k % len(uses)].step()
                k += 1
                switches += 1
            ctx.probe('interleaved in one thread')
        else:
            s = threads.Scheduler(w, plan['switches'], len(uses), min(plan.get('rep', 1), 100), bool(plan.get('hot')))
            s.run([u.all for u in uses])
            switches = s.moved
            ctx.stats['sched:preemptions'] += s.moved
            ctx.stats['sched:scheduling_points'] += s.points
            ctx.key.append(s.where)
            for x in s.where[:40]:
                ctx.log(x)
            ctx.probe('threads decode objects of one kind' if 'times' in plan else 'interleaved in threads')
        for i, (a, u) in enumerate(zip(alone, uses)):
            if a.end != u.end:
                ctx.fail('end', 'reader %d ends with %s after %d items; alone it ends with %s after %d' % (
                    i, u.end, len(u.items), a.end, len(a.items)))
            if len(a.items) != len(u.items):
                ctx.fail('items', 'reader %d delivers %d items, alone %d' % (i, len(u.items), len(a.items)))
            for k, (x, y) in enumerate(zip(a.items, u.items)):
                d = same(x, y, 'item %d' % k)
                if d:
                    ctx.fail('items', 'reader %d, used together with others: %s' % (i, d))
            d = same(a.other, u.rest(), 'run-level data') if u.f is not None else None
            if d:
                ctx.fail('items', 'reader %d, used together with others: %s' % (i, d))
            if u.f is not None:
                u.f.close()
    ctx.nontrivial = switches >= 3
    ctx.log('switches', switches, 'ends', [u.end for u in uses])
