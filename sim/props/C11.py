"""Closing releases every resource, at any point."""
import gc

from .. import gen, readers
from ..core import BadPlan
from .. import world as W

ID = 'C11'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one reader of any class and container, intact, torn, failing or on a broken helper, used for some '
        'steps and then closed, left through its with-block, dropped, or refused by its constructor; afterwards real '
        'descriptors, pipes and the simulated helper are inspected; non-trivial if a descriptor or helper had been opened')
REAL = ['eventio.base cleanup', 'SimTelFile', 'IACTFile', 'weakref.finalize', 'descriptors of the operating system']
STUB = ['gzip helper process and its pipes', 'raw file layer (errors, short reads)', 'clock']
ASSUME = ['a dropped reader may be released by the garbage collector (a collection is run)',
          'a helper that ignores SIGTERM still dies from SIGKILL', 'bounded time: 10 simulated seconds']
MODES = ['close', 'close', 'with', 'exc', 'drop', 'drop', 'hold']


def make(rng, idx, tier):
    st = gen.storage_spec(rng, ('plain', 'gz', 'gz', 'gz', 'gzpy', 'zst'))
    io = gen.io_spec(rng)
    h = io['helper']
    k = rng.random()
    if k < 0.08:
        h['spawn'] = rng.choice(['ENOENT', 'ENOMEM'])
    elif k < 0.18:
        h['fail_now'] = 1
    elif k < 0.3:
        h['kill_at'] = rng.randint(0, 3000)
    elif k < 0.4:
        h['err_at'] = rng.randint(0, 3000)
    elif k < 0.55:
        h['ignore_term'] = 1
    elif k < 0.75:
        h['term_delay'] = rng.choice([0.001, 0.5, 3.0, 1e6])
    if rng.random() < 0.25:
        # opening or reading fails in the operating system
        if rng.random() < 0.5:
            io['open_err'] = dict(n=rng.randint(0, 5), e=rng.choice(['EMFILE', 'EACCES', 'EIO']))
    return dict(case=readers.make(rng, small=True), st=st, io=io, mode=rng.choice(MODES), n=rng.choice([0, 0, 1, 2, 5, 100]),
                cut=gen.cut_spec(rng) if rng.random() < 0.35 else None, wrong=int(rng.random() < 0.15),
                arm=[rng.choice(['EIO', 'KI', 'EIO', 'seekEIO']), rng.randint(0, 25)] if rng.random() < 0.2 else None,
                peek=int(rng.random() < 0.3), keep=int(rng.random() < 0.5), again=rng.randint(0, 2))


class UserError(Exception):
    pass


def use(ctx, case, f, plan, kept):
    if plan['peek'] and hasattr(f, 'peek'):
        ctx.call(f.peek)
    steps = f if case.k == 'low' else case.steps(f)
    for _ in range(plan['n']):
        r = ctx.call(next, steps)
        if r[0] != 'ok':
            break
        if case.k == 'low':
            if plan['keep']:
                kept.append(r[1])
            if plan['n'] % 2:
                ctx.call(r[1].read)
    if plan['mode'] == 'hold':
        kept.append(steps)


def execute(plan, ctx):
    case = readers.Case(plan['case'])
    st = plan['st']
    t = gen.torn(case.data, case.nodes, st, plan['cut']) if plan['cut'] else gen.torn_storage(gen.store(case.data, st), st)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    if plan['wrong']:
        # a reader of another class refuses the file in its constructor
        others = [c for c in ('low', 'simtel', 'iact') if c != case.k]
        opener = readers.Case.open
        case.k = others[plan['n'] % 2]
        case.plan = dict(case.plan, opt=readers.simtelrun.ALL)
    ctx.key += [plan['case'], st, plan['mode'], plan['n'], plan['wrong'], plan['cut']]
    before = W.open_fds()
    kept = []
    with ctx.open_world(plan['io'], budget=1500000) as w:
        if plan['arm']:
            w.arm(*plan['arm'])
        r = ctx.call(case.open, ctx, path, st)
        state = 'constructor raised %s' % r[0]
        f = None
        if r[0] == 'ok':
            f = r[1]
            r = None
            during = W.open_fds()
            ctx.nontrivial = bool(during != before or w.procs)
            t0 = w.clock
            if plan['mode'] in ('with', 'exc'):
                def block():
                    with f as g:
                        if g is not f:
                            ctx.fail('with', 'the with-block gives another reader')
                        use(ctx, case, f, plan, kept)
                        nonlocal t0
                        t0 = w.clock
                        if plan['mode'] == 'exc':
                            raise UserError('in the block')
                r = ctx.call(block)
                if r[0] != ('UserError' if plan['mode'] == 'exc' else 'ok'):
                    ctx.fail('with', 'leaving the with-block: %s: %s' % (r[0], r[1]))
                r = None
            else:
                use(ctx, case, f, plan, kept)
                t0 = w.clock
                if plan['mode'] != 'drop':
                    r = ctx.call(f.close)
                    if r[0] != 'ok':
                        ctx.fail('close', 'close raises %s: %s' % (r[0], r[1]))
                    r = None
            state = '%s after %d steps' % (plan['mode'], plan['n'])
            if plan['mode'] == 'drop':
                if case.k == 'iact':
                    kept = []
                f = steps = None
                gc.collect()
            check(ctx, before, state)
            if w.clock - t0 > 10:
                ctx.fail('slow', '%s takes %.1f simulated seconds' % (state, w.clock - t0))
            if f is not None:
                for _ in range(plan['again']):
                    r = ctx.call(f.close)
                    if r[0] != 'ok':
                        ctx.fail('close', 'closing again raises %s: %s' % (r[0], r[1]))
                closed_use(ctx, case, f, kept, plan)
                check(ctx, before, state + ', and use after closing')
        else:
            ctx.nontrivial = True
            r = None
            gc.collect()
            ctx.probe('constructor failed')
            check(ctx, before, state)
    ctx.log(state)


def check(ctx, before, state):
    fds = W.open_fds()
    if fds != before:
        ctx.fail('descriptor', '%s: still open: %s' % (state, fds))
    for p in ctx.world.procs:
        left = p.leftovers()
        if left:
            ctx.fail('helper', '%s: %s' % (state, ', '.join(left)))
        ctx.probe('helpers released')


def closed_use(ctx, case, f, kept, plan):
    """nothing may come out of a closed reader any more"""
    if not plan['peek']:
        r = ctx.call(next, f if case.k != 'iact' else iter(f))
        if r[0] == 'ok':
            ctx.fail('after-close', 'a closed reader delivers %r' % (r[1],))
    for o in kept:
        if not hasattr(o, 'only_subobjects'):
            continue
        r = ctx.call(o.seek, 0)
        r = ctx.call(o.read)
        if r[0] == 'ok' and len(r[1]):
            ctx.fail('after-close', 'an object of a closed reader reads %d bytes' % len(r[1]))
