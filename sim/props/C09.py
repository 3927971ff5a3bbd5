"""A failing decompression helper never loses data silently."""
import os
import pathlib
import random

from .. import gen, readers, simtelrun
from ..core import BadPlan
from ..world import gzip_cli

ID = 'C09'
QUICK, THOROUGH = 6000, 300000
RULE = ('one simulated run = one gzip file read to the end by one reader class while the simulated gzip helper is missing, '
        'cannot be started, fails at once, meets a read error, is killed by a signal or stalls at chosen output positions, '
        'at a scheduled relative speed; non-trivial if a fault was injected or the helper was scheduled in >= 3 steps')
REAL = ['eventio.base (helper start, fallback, pipe)', 'SimTelFile', 'IACTFile', 'gzip module', 'all decoders']
STUB = ['gzip helper process, its pipes and exit status', 'raw file layer (short reads)', 'clock']
ASSUME = ['the helper model reproduces GNU gzip (checked against /usr/bin/gzip by tools/check_stub.py)',
          'the stored file itself is intact (optionally followed by garbage, which gzip only warns about)']
NAMES = ['f.gz', 'f.gz', 'f.gz', '-f.gz', '--help.gz', 'a b.gz', "q'uote$x.gz", '\u00fcml\u00e4ut.gz', 'nosuffix', 'f.zst', '-']


def make(rng, idx, tier):
    st = gen.storage_spec(rng, ('gz',))
    io = gen.io_spec(rng)
    h = io['helper']
    k = rng.random()
    if k < 0.12:
        h['spawn'] = rng.choice(['ENOENT', 'EAGAIN', 'ENOMEM', 'EACCES', 'EMFILE'])
    elif k < 0.22:
        h['fail_now'] = 1
    elif k < 0.5:
        h['kill_pm'] = rng.randint(0, 1000)
        h['sig'] = rng.choice([9, 9, 15, 11, 13])
    elif k < 0.72:
        h['err_pm'] = rng.randint(0, 1000)
    if rng.random() < 0.3:
        h['stall_pm'] = [[rng.randint(0, 1000), rng.choice([0.5, 30.0, 86400.0])] for _ in range(rng.randint(1, 3))]
    return dict(case=readers.make(rng), st=st, io=io, name=rng.choice(NAMES), form=rng.choice(['abs', 'abs', 'rel', 'path', 'bytes']),
                tail=rng.choice([0, 0, 0, 0, 1, 2]), peek=int(rng.random() < 0.2))


def execute(plan, ctx):
    case = readers.Case(plan['case'])
    st = plan['st']
    if st['fmt'] != 'gz':
        raise BadPlan('gzip only')
    stored = gen.store(case.data, st)
    if plan['tail'] == 1:
        stored += b'trailing garbage'
    elif plan['tail'] == 2:
        stored += bytes(512)
    n_out = len(gzip_cli(stored)[0])
    io = dict(plan['io'])
    h = dict(io['helper'])
    if 'kill_pm' in h:
        h['kill_at'] = h.pop('kill_pm') * n_out // 1000
    if 'err_pm' in h:
        h['err_at'] = h.pop('err_pm') * n_out // 1000
    if 'stall_pm' in h:
        h['stalls'] = [[a * n_out // 1000, b] for a, b in h.pop('stall_pm')]
    io['helper'] = h
    faulty = 'spawn' in h or 'fail_now' in h or 'kill_at' in h or 'err_at' in h
    path = ctx.write(plan['name'], stored)
    if plan['form'] == 'rel':
        os.chdir(ctx.dir)
        path = plan['name']
    elif plan['form'] == 'path':
        path = pathlib.Path(path)
    elif plan['form'] == 'bytes':
        path = os.fsencode(path)
    ctx.key += [plan['case'], st, plan['tail'], plan['form'], plan['name']]
    try:
        with ctx.open_world(io, budget=1500000):
            drive(plan, ctx, case, path, st, faulty, 'spawn' in h)
    finally:
        os.chdir('/')
    ctx.nontrivial = faulty or len(ctx.world.sched) >= 3 if ctx.world else True


def drive(plan, ctx, case, path, st, faulty, unstartable):
    r = ctx.call(case.open, ctx, path, st)
    if r[0] != 'ok':
        if not faulty or unstartable:
            ctx.fail('open', 'opening an intact gzip file%s raises %s: %s' % (
                ' when gzip cannot be started' if unstartable else '', r[0], r[1]))
        if not isinstance(r[1], (OSError, EOFError)):
            ctx.fail('open-error', 'the helper fails and opening raises %s: %s' % (r[0], r[1]))
        ctx.probe('failure reported on opening')
        ctx.log('open', r[0])
        return
    f = r[1]
    if plan['peek'] and hasattr(f, 'peek'):
        ctx.call(f.peek)
    steps = case.steps(f)
    n, short_last = 0, False
    while True:
        r = ctx.call(next, steps)
        if r[0] != 'ok':
            break
        if n >= len(case.want):
            ctx.fail('extra', 'item %d delivered, the file holds %d' % (n, len(case.want)))
        d = case.diff(n, r[1])
        if d:
            if faulty and ctx.warnings and readers.prefix_ok(case, n, r[1]):
                short_last = True
                n += 1
                continue
            ctx.fail('item', d)
        if short_last:
            ctx.fail('item', 'a complete event follows an incomplete one')
        n += 1
    complete = n == len(case.want) and not short_last
    ctx.log('items', n, 'of', len(case.want), 'then', r[0])
    if r[0] == 'StopIteration':
        warned = [w for w in simtelrun.eof_warnings(ctx)]
        if not complete and not (case.k == 'simtel' and warned and faulty and not unstartable):
            ctx.fail('lost', 'clean end after %d of %d items%s' % (n, len(case.want), '' if faulty else ' without any fault'))
        if case.k == 'simtel' and not warned:
            d = simtelrun.runlevel_diff(f, case.ref, len(plan['case']['run']['tels']))
            if d:
                ctx.fail('lost', 'clean end, but not everything was read: %s' % d)
        ctx.probe('read completely' if complete else 'prefix and warning')
        if not faulty and plan['tail'] != 1 and warned:
            ctx.fail('warning', 'an intact file gives the warning: %s' % warned[0].message)
    else:
        if unstartable and plan['tail'] == 1 and n >= len(case.want) - 1 and isinstance(r[1], OSError):
            # Python's gzip module treats trailing garbage as an error where gzip warns
            ctx.probe('trailing garbage refused by the gzip module')
        elif not faulty or unstartable:
            ctx.fail('error', 'reading an intact gzip file%s fails after %d of %d items: %s: %s' % (
                ' without gzip' if unstartable else '', n, len(case.want), r[0], r[1]))
        if not isinstance(r[1], (OSError, EOFError)):
            ctx.fail('error-kind', 'the helper fails and reading raises %s: %s' % (r[0], r[1]))
        ctx.probe('prefix and error')
        if case.k == 'low':
            for _ in range(2):
                r = ctx.call(next, steps)
                if r[0] == 'ok' or r[0] == 'StopIteration' and n < len(case.want):
                    ctx.fail('resumed', 'after the failure: %s' % (r,))
    f.close()
