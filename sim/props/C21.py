"""Cutting a file writes exactly the largest whole-object prefix that fits."""
import contextlib
import gzip
import io
import os
import random
import sys
import zlib

from .. import enc, gen, low
from .. import world as W
from ..core import BadPlan

ID = 'C21'
QUICK, THOROUGH = 12000, 600000
RULE = ('one simulated run = eventio_cut_file on one generated file in one container, intact, torn, damaged by read errors, a '
        'failing gzip process or replaced while the tool runs, with one size limit and one sequence of write, short-write, '
        'full-disk and close errors on the output; non-trivial if at least one object fits')
REAL = ['eventio.scripts.cut_eventio_file', 'eventio.base', 'argparse', 'gzip module', 'zstandard', 'io.BufferedReader/Writer']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads and writes, errors, full disk)', 'clock']
ASSUME = ['success is returning from main() or exit status 0, and closing the output without an error',
          'if no object fits, an error without output or an empty output are both accepted']


def size_spec(rng):
    r = rng.random()
    if r < 0.6:
        # relative to the end of an object
        return dict(k='end', i=rng.randint(0, 10**6), off=rng.choice([-1, 0, 0, 0, 1, 2, rng.randint(-200, 200)]))
    if r < 0.8:
        return dict(k='abs', at=rng.randint(0, 1100000))
    if r < 0.95:
        return dict(k='unit', n=rng.choice([0, 1, 1, 2, 3]), u=rng.choice(['k', 'k', 'M', 'G']))
    return dict(k='text', t=rng.choice(['1.5k', '10kB', '1e3', 'k', '10 k', '2m', '5 ', '12.5', '3KiB', '7g']))


def make(rng, idx, tier):
    if idx % 20000 in (11, 12):
        # an object that ends at, or one byte beside, a limit of one GiB
        return dict(big=rng.choice([-1, 0, 0] if idx % 2 else [1, 1, 2]), seed=rng.randint(0, 10**9), io=dict(buf=1 << 20))
    st = gen.storage_spec(rng, ('plain', 'plain', 'gz', 'gz', 'zst'))
    plan = dict(tree=gen.file_spec(rng, 1, rng.choice([2, 5, 10]), rng.choice([0, 1, 2]), rng.choice([0.0, 0.3, 0.7])),
                st=st, io=gen.io_spec(rng), size=size_spec(rng), out=rng.choice(['o.dat', 'o.dat', 'o.dat.gz', 'o.gz', 'gz', 'o.simtel']),
                old=rng.choice([None, None, 0, 5000]))
    r = rng.random()
    if r < 0.25:
        plan['cut'] = gen.cut_spec(rng)
    elif r < 0.4:
        plan['swap'] = dict(n=rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), what=rng.choice(['short', 'short', 'gone', 'empty']), at=rng.randint(0, 10**6))
    elif r < 0.5:
        plan['eio'] = [rng.choice(['EIO', 'EIO', 'ENOMEM', 'seekEIO', 'KI']), rng.choice([0, 1, 2, 3, rng.randint(0, 40)])]
        plan['io']['buf'] = rng.choice([16, 64, 512, 8192])
    elif r < 0.6 and st['fmt'] == 'gz':
        plan['kill'] = dict(n=rng.choice([0, 0, 1, 1, 2]), at=rng.randint(0, 10**6), how=rng.choice(['kill_at', 'err_at']))
    if rng.random() < 0.45:
        w = plan['io']['write'] = {}
        k = rng.choice(['eio_at', 'full_at', 'full_at', 'short', 'close_err'])
        if k == 'short':
            w['short'] = rng.choice([0.3, 0.9])
        elif k == 'close_err':
            w['close_err'] = 1
        else:
            w[k] = rng.choice([0, 1, 10, 100, rng.randint(0, 3000)])
            if k == 'eio_at' and rng.random() < 0.3:
                w['once'] = 1
    if rng.random() < 0.08:
        # an object that ends at, or one byte beside, a limit given with a unit
        u, n = rng.choice([('k', 1), ('k', 1), ('k', 2), ('k', 7), ('M', 1), ('M', 1), ('G', 1)])
        a = rng.randint(0, 600)
        plan['size'] = dict(k='unit', n=n, u=u)
        if u in 'MG':
            plan['io'].update(buf=65536, short=0.0)
            plan['io'].get('helper', {}).update(cap=65536, chunk='all', speed=1.0)
        plan['tree'] = [dict(gen.raw_spec(rng), x=0, n=k) for k in (
            a, n * UNIT['M' if u == 'G' else u] - 32 - a + rng.choice([-1, 0, 1, 1, 2]), rng.randint(0, 50))]
    elif rng.random() < 0.004:
        # a limit beside the end of an object in a file of many megabytes
        plan['st'] = dict(fmt='plain')
        plan['out'] = rng.choice(['o.dat', 'o.dat', 'o.simtel'])
        plan['size'] = dict(k='end', i=rng.randint(1, 3), off=rng.choice([-1, -1, 0, 1, 1]))
        plan['io'].update(buf=65536, short=0.0)
        plan['tree'] = [dict(gen.raw_spec(rng), x=0, n=n) for n in (
            rng.randint(1 << 23, 1 << 24), rng.randint(1 << 23, 1 << 24), rng.randint(0, 3), rng.randint(0, 3))]
    elif rng.random() < 0.3:
        plan['tree'] = [dict(gen.raw_spec(rng), n=rng.choice([1000, 1008, 2032, 20000, 100])) for _ in range(rng.randint(1, 6))]
    if 'swap' not in plan and rng.random() < 0.12:
        plan['inplace'] = inplace(rng)
        plan['old'] = None
    return plan


def inplace(rng):
    """the input is also the output: by its name, a symbolic or a hard link"""
    return rng.choice(['same', 'same', 'link', 'hard'])


UNIT = {'k': 1024, 'M': 1024**2, 'G': 1024**3}


def limit_of(sp, nodes, total):
    """(text of the argument, bytes)"""
    if sp['k'] == 'end':
        n = max(0, nodes[sp['i'] % len(nodes)].end + sp['off'])
        return str(n), n
    if sp['k'] == 'abs':
        n = max(0, total * sp['at'] // 10**6)
        return str(n), n
    if sp['k'] == 'unit':
        if sp['u'] not in UNIT:
            raise BadPlan('unit')
        return '%d%s' % (sp['n'], sp['u']), sp['n'] * UNIT[sp['u']]
    return sp['t'], None


def run_main(ctx, main, argv, out):
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                return ctx.call(main)
            except SystemExit as e:
                if e.code in (None, 0):
                    return 'ok', None
                return 'exit %s' % (e.code,), e
    finally:
        sys.argv = old


def execute(plan, ctx):
    if 'big' in plan:
        return big(plan, ctx)
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut']) if plan.get('cut') else gen.Torn(gen.store(data, st), data, len(data), True)
    path = ctx.write('in' + gen.SUFFIX[st['fmt']], t.stored)
    text, limit = limit_of(plan['size'], nodes, len(data))
    outp = ctx.path(plan['out'])
    here = plan.get('inplace')
    if here:
        if plan.get('old') is not None or plan.get('swap'):
            raise BadPlan('in place')
        if here == 'same':
            outp = path
        else:
            (os.symlink if here == 'link' else os.link)(path, outp)
    if plan.get('old') is not None:
        ctx.write(plan['out'], b'\xee' * plan['old'])
    ctx.key += [plan['tree'], st, text, plan['out'], plan['io'].get('write'), plan.get('swap'), plan.get('eio'), plan.get('kill')]
    hurt = 0
    for k in ('cut', 'swap', 'eio', 'kill'):
        if plan.get(k):
            hurt = k
    if hurt == 'cut' and t.complete and len(t.content) in [n.end for n in nodes]:
        # nothing but a shorter file
        nodes = [n for n in nodes if n.end <= len(t.content)]
        data, hurt = t.content, 0
    fit, want = fitting(nodes, data, limit)
    wants = [want]
    if plan.get('swap') and plan['swap']['what'] == 'short':
        new, complete = gen.content_of(t.stored[:len(t.stored) * plan['swap']['at'] // 10**6], st)
        if complete and len(new) in [n.end for n in nodes]:
            wants.append(fitting([n for n in nodes if n.end <= len(new)], new, limit)[1])
    ctx.nontrivial = bool(fit)
    out = io.StringIO()
    if plan.get('kill'):
        k = plan['kill']
        plan['io']['helper_n'] = {str(k['n']): {k['how']: len(data) * k['at'] // 10**6}}
    with ctx.open_world(plan['io']) as w:
        from eventio.scripts import cut_eventio_file as tool
        if plan.get('swap'):
            swap(plan['swap'], path, t.stored, w)
        if plan.get('eio'):
            w.arm(*plan['eio'])
        r = run_main(ctx, tool.main, ['eventio_cut_file', path, outp, text], out)
        fired = bool(plan.get('eio')) and w.armed is None
        w.armed = None
    ok = r[0] == 'ok'
    written = None
    if os.path.exists(outp):
        with W.real_open(outp, 'rb') as f:
            written = f.read()
    ctx.log('limit', text, 'fit', len(fit), 'of', len(nodes), 'bytes', len(want), 'result', r[0], 'fault', hurt, plan['io'].get('write'))
    wf = any(k.startswith('fault:write') or k.startswith('fault:close') for k in w.counts)
    if here and not ok and not wf:
        with W.real_open(path, 'rb') as f:
            if f.read() != t.stored:
                ctx.fail('input', 'cutting a file in place fails with %s: %s, and the file no longer holds what it did' % (r[0], r[1]))
        ctx.probe('in place: failure leaves the file alone')
    if limit is None:
        if ok:
            ctx.fail('size', 'a size of %r is accepted (the documented forms are #, #k, #M or #G)' % text)
        if written is not None and plan.get('old') is None and not here or plan.get('old') is not None and written != b'\xee' * plan['old']:
            ctx.fail('size', 'an invalid size changes the output file')
        ctx.probe('invalid size refused')
        return
    if not ok:
        excuse = hurt and hurt != 'cut' or wf or not fit or hurt == 'cut'
        if hurt == 'cut' and excuse and not wf and fit and len(fit) < len(nodes) and (
                t.low >= nodes[len(fit)].addr + min(nodes[len(fit)].fixed, nodes[len(fit)].size)):
            excuse = False
        if not excuse:
            ctx.fail('failed', 'cutting an intact file (%d bytes, limit %s) fails: %s: %s' % (len(data), text, r[0], r[1]))
        ctx.probe('failure reported (%s)' % (hurt or ('output' if wf else 'nothing fits')))
        return
    if wf:
        ctx.fail('unreported', 'writing the output failed (%s), but the tool reports success' % sorted(
            k for k in w.counts if k.startswith('fault:')))
    if written is None:
        ctx.fail('output', 'success without an output file')
    if here:
        ctx.probe('cut in place')
    if outp.endswith('.gz'):
        try:
            content = gzip.decompress(written)
        except (OSError, EOFError, zlib.error) as e:
            ctx.fail('output', 'the compressed output is not complete: %r' % (e,))
    else:
        content = written
    if content not in wants:
        known = [0] + [n.end for n in nodes]
        ctx.fail('output', 'limit %s of %d bytes: the output holds %d bytes%s, the objects that fit have %d%s' % (
            text, len(data), len(content), '' if data.startswith(content) else ' (not a prefix)', len(want),
            '' if len(content) in known else '; it ends inside an object'))
    if fired and plan['eio'][0] != 'KI':
        ctx.probe('read error without consequence for the output')
    ctx.probe('cut', bool(fit))
    ctx.probe('exact fit', bool(fit) and fit[-1].end == limit)
    ctx.probe('everything fits', len(fit) == len(nodes))


def big(plan, ctx):
    """the last unit: a sparse file of more than one GiB"""
    if not abs(plan['big']) < 1000:
        raise BadPlan('big')
    vfs = os.statvfs(ctx.path('.'))
    end = (1 << 30) + plan['big']
    if end <= 1 << 30 and vfs.f_bavail * vfs.f_frsize < 3 << 30:
        end = (1 << 30) + 1                           # nothing large is to be written
    rng = random.Random('big/%s' % plan['seed'])
    head = enc.encode_file([enc.Node(rng.choice(gen.RAW_TYPES), 1, 2, payload=rng.randbytes(rng.randint(0, 40)))])
    node = enc.Node(rng.choice(gen.RAW_TYPES), 7, 8, extended=True, payload=b'')
    tail = enc.encode_file([enc.Node(rng.choice(gen.RAW_TYPES), 3, 4, payload=rng.randbytes(rng.randint(1, 40)))])
    a, z = rng.randbytes(8), rng.randbytes(8)
    path, outp = ctx.path('in.dat'), ctx.path('o.dat')
    with W.real_open(path, 'wb') as f:
        f.write(head)
        f.write(enc.header_bytes(node, end - len(head) - 20, True))
        f.write(a)
        f.seek(end - 8)
        f.write(z)
        f.write(tail)
    ctx.key += [plan['big'], plan['seed']]
    ctx.nontrivial = True
    want = end if end <= 1 << 30 else len(head)
    with ctx.open_world(plan['io']):
        from eventio.scripts import cut_eventio_file as tool
        r = run_main(ctx, tool.main, ['eventio_cut_file', path, outp, '1G'], io.StringIO())
    if r[0] != 'ok':
        ctx.fail('failed', 'cutting an intact file with an object that ends at %d to 1G fails: %s: %s' % (end, r[0], r[1]))
    size = os.path.getsize(outp)
    if size != want:
        ctx.fail('output', 'limit 1G, an object ends at %d: the output holds %d bytes, the objects that fit have %d' % (end, size, want))
    with W.real_open(path, 'rb') as f, W.real_open(outp, 'rb') as g:
        while True:
            x = g.read(1 << 22)
            if x != f.read(len(x)):
                ctx.fail('output', 'the output is not a prefix of the input')
            if not x:
                break
    os.unlink(outp)
    ctx.probe('limit of one GiB')


def fitting(nodes, data, limit):
    fit = [n for n in nodes if limit is not None and n.end <= limit]
    return fit, data[:fit[-1].end] if fit else b''


def swap(sp, path, stored, w):
    """the input changes when a file is opened for the n-th time (0: when the output is opened)"""
    count = [0]

    def opening(mode):
        count[0] += 1
        if count[0] == sp['n'] or sp['n'] == 0 and 'w' in mode:
            new = {'short': stored[:len(stored) * sp['at'] // 10**6], 'empty': b''}.get(sp['what'])
            w.count('fault:input_' + sp['what'])
            if new is None:
                os.unlink(path)
            else:
                with W.real_open(path, 'wb') as f:
                    f.write(new)
    w.open_hook = opening
