"""Read errors surface, and a retry continues exactly where it failed."""
from .. import gen, live, low, readers
from ..core import BadPlan

ID = 'C10'
QUICK, THOROUGH = 8000, 500000
RULE = ('one simulated run = one file and either a history of low-level operations in which chosen reads and seeks of the '
        'operating system fail once (EIO, ENOMEM, EAGAIN, interrupt) and the operation is repeated, or one reader of any class '
        'and container in which such faults hit the constructor or single steps; non-trivial if a fault was met')
REAL = ['eventio.base', 'SimTelFile', 'IACTFile', 'all decoders', 'gzip module', 'zstandard', 'io.BufferedReader']
STUB = ['raw file layer (short reads, errors, interrupts)', 'gzip helper process and its pipe', 'clock']
ASSUME = ['repeating an operation after a fault is claimed for low-level operations on uncompressed files, and for a new '
          'iteration over an uncompressed IACT file']
WEIGHTS = dict(next=8, sub=8, read=8, seek=4, tell=1, parse=8, fread=1, iter=1, show=1)
FAULTS = [['EIO', 0], ['EIO', 0], ['EIO', 1], ['EIO', 2], ['EIO', 3], ['KI', 0], ['KI', 1], ['KI', 2], ['seekEIO', 0], ['seekEIO', 1],
          ['ENOMEM', 0], ['EAGAIN', 1]]


def make(rng, idx, tier):
    if idx % 3 == 0:
        return make_case(rng)
    ops = live.ops(rng, rng.randint(4, 50), WEIGHTS)
    p = rng.choice([0.1, 0.3, 0.7])
    for op in ops:
        if op[0] in ('next', 'sub', 'read', 'seek', 'parse') and rng.random() < p:
            op.append(rng.choice(FAULTS))
    return dict(tree=gen.file_spec(rng, 1, 6, rng.choice([0, 1, 2]), rng.choice([0.3, 0.7, 1.0])),
                io=dict(gen.io_spec(rng, helper=False), buf=rng.choice([1, 3, 16, 64, 64, 512, 8192])), ops=ops)


def make_case(rng):
    faults = [[rng.choice([-1, 0, 0, 1, 2, 3, rng.randint(0, 12)]), rng.choice(['EIO', 'EIO', 'EIO', 'KI', 'ENOMEM', 'seekEIO']),
               rng.choice([0, 1, 2, 3, 5, rng.randint(0, 60)])] for _ in range(rng.choice([1, 1, 2]))]
    return dict(case=readers.make(rng), st=gen.storage_spec(rng, ('plain', 'plain', 'gz', 'gzpy', 'zst')), faults=faults,
                io=dict(gen.io_spec(rng), buf=rng.choice([1, 16, 64, 512, 8192])))


def execute_case(plan, ctx):
    case = readers.Case(plan['case'])
    st = plan['st']
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], gen.store(case.data, st))
    ctx.key += [plan['case'], st, plan['faults']]
    by_step = {}
    for i, kind, after in plan['faults']:
        by_step.setdefault(i, []).append((kind, after))
    fired_any = False

    def step(i, fn, *a):
        nonlocal fired_any
        w = ctx.world
        faults = by_step.get(i)
        if faults:
            w.arm(*faults.pop(0))
        r = ctx.call(fn, *a)
        if faults is not None and w.armed is None:
            fired_any = True
        w.armed = None
        return r

    def judge(r, what):
        """an error is due to the fault, and says so"""
        if not fired_any:
            ctx.fail('error', '%s: %s: %s' % (what, r[0], r[1]))
        if r[0] != 'KeyboardInterrupt' and not isinstance(r[1], OSError):
            ctx.fail('swallowed', '%s: an operating system error is turned into %s: %s' % (what, r[0], r[1]))
        ctx.probe('fault reported by ' + case.k)

    with ctx.open_world(plan['io'], budget=1500000):
        r = step(-1, case.open, ctx, path, st)
        if r[0] != 'ok':
            judge(r, 'opening')
            if st['fmt'] != 'gz':
                r = ctx.call(case.open, ctx, path, st)
                if r[0] != 'ok':
                    ctx.fail('retry', 'opening again after the fault: %s: %s' % (r[0], r[1]))
        if r[0] == 'ok':
            f = r[1]
            d = case.head_diff(f)
            if d:
                ctx.fail('header', d)
            again = 2 if case.k == 'iact' and st['fmt'] == 'plain' else 1
            while again:
                again -= 1
                n, steps = 0, case.steps(f)
                while True:
                    r = step(n, next, steps)
                    if r[0] != 'ok':
                        break
                    d = 'item %d of %d' % (n, len(case.want)) if n >= len(case.want) else case.diff(n, r[1])
                    if d:
                        ctx.fail('item', d)
                    n += 1
                if r[0] == 'StopIteration':
                    if n != len(case.want):
                        ctx.fail('lost', '%s after a fault: clean end after %d of %d items' % (case.k, n, len(case.want)))
                    break
                judge(r, 'step %d' % n)
            ctx.log('items', n, 'of', len(case.want), 'then', r[0])
            f.close()
    ctx.nontrivial = fired_any


def execute(plan, ctx):
    if 'case' in plan:
        return execute_case(plan, ctx)
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    t = gen.Torn(data, data, len(data), True)
    path = ctx.write('f.dat', data)
    ctx.key += [plan['tree'], plan['ops'], plan['io']]
    ctx.prop = ID
    st = dict(fmt='plain')
    with ctx.open_world(plan['io']):
        f = low.open_low(ctx, path, st)
        s = live.Session(ctx, f, nodes, t, False)
        s.fmt = st['fmt']
        for op in plan['ops']:
            if isinstance(op[-1], list):
                s.fault = op[-1]
                op = op[:-1]
            s.step(op)
            s.fault = None
        s.finish()
        ctx.nontrivial = ctx.stats['probe:operation failed and was repeated'] > 0
        ctx.log('ops', len(plan['ops']), 'at', s.i)
        f.close()
