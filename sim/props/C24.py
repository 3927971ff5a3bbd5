"""The plotting tool saves one correct figure per stored histogram, or says that it could not."""
import os
import random
import re
import struct
import sys
import warnings

import numpy as np

from .. import gen
from .. import world as W
from ..core import BadPlan
from ..enc import Buf, Node, encode_file
from .C21 import run_main

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.figure
from matplotlib.collections import QuadMesh
from matplotlib.patches import Rectangle
# load fonts and backends once, before the runs are forked
plt.figure()
plt.title('x')
plt.tight_layout()
plt.close('all')
import matplotlib.backends.backend_svg  # noqa
import matplotlib.backends.backend_pdf  # noqa

ID = 'C24'
QUICK, THOROUGH = 1000, 40000
RULE = ('one simulated run = eventio_plot_histograms on one generated file with histograms of all kinds among other objects, in '
        'one container, intact, torn, with a read error or a failing gzip process, while writing the figures works or fails at '
        'a chosen byte; non-trivial if at least one histogram is stored')
REAL = ['eventio.scripts.plot_hists', 'eventio.histograms', 'eventio.search_utils', 'eventio.base', 'matplotlib (Agg, svg, pdf)', 'argparse',
        'gzip module', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads and writes, errors, full disk)', 'clock']
ASSUME = ['success is returning from main() or exit status 0',
          'contents are judged from bars (1D) and meshes (2D) of the figure at the moment it is saved; other artists are not judged; '
          'heights to 1e-5 of the sum of all (drawing accumulates in single precision)',
          'stored axes are increasing and contents finite']


def hist_spec(rng):
    return dict(s=rng.randint(0, 10**9), two=int(rng.random() < 0.4), t=rng.choice('IiRrFD'), nx=rng.choice([1, 2, 3, 5, 12]), ny=rng.choice([1, 2, 4]),
                fill=rng.choice(['none', 'zero', 'one', 'some', 'some', 'all', 'all', 'cancel', 'few']))


def make(rng, idx, tier):
    st = gen.storage_spec(rng, ('plain', 'plain', 'gz', 'zst'))
    items = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.3:
            items.append(gen.raw_spec(rng))
        items.append(dict(k='H', v=rng.choice([1, 2]), h=[hist_spec(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]))
    if rng.random() < 0.4:
        items.append(gen.raw_spec(rng))
    plan = dict(items=items, st=st, io=gen.io_spec(rng), fmt=rng.choice(['png', 'png', 'svg', 'pdf']))
    r = rng.random()
    if r < 0.35:
        plan['cut'] = gen.cut_spec(rng)
    elif r < 0.45:
        plan['eio'] = [rng.choice(['EIO', 'EIO', 'ENOMEM', 'seekEIO', 'KI']), rng.choice([0, 1, 2, 3, rng.randint(0, 40)])]
        plan['io']['buf'] = rng.choice([16, 64, 512, 8192])
    elif r < 0.55 and st['fmt'] == 'gz':
        plan['kill'] = dict(n=0, at=rng.randint(0, 10**6), how=rng.choice(['kill_at', 'err_at']))
    elif r < 0.75:
        w = plan['io']['write'] = {}
        k = rng.choice(['eio_at', 'full_at', 'full_at', 'short', 'close_err'])
        w[k] = {'short': 0.5, 'close_err': 1}.get(k, rng.choice([0, 1, 100, rng.randint(0, 12000)]))
    return plan


def histograms(sp):
    """the Histograms object and what its figures have to show"""
    b, out = Buf(), []
    b.i16(len(sp['h']))
    for h in sp['h']:
        r = random.Random('h/%s' % h['s'])
        two, t, nx = h['two'], h['t'], h['nx']
        ny = h['ny'] if two else 0
        if not (0 < nx < 100 and 0 <= ny < 100 and t in 'IiRrFD') or two and not ny:
            raise BadPlan('histogram')
        title = ''.join(r.choice('abc XYZ_()[]%.^&/\u00b5\u00b0') for _ in range(r.choice([0, 1, 4, 9, 30])))
        b.raw(t.encode()).string(title.encode())
        if len(title.encode()) % 2 == 0:
            b.raw(b'\0')
        b.i32(r.randint(0, 10**6)).i16(nx).i16(ny)
        size = nx * (ny or 1)
        lim = [0] * size
        if h['fill'] == 'one':
            lim[r.randrange(size)] = 1
        elif h['fill'] in ('some', 'cancel'):
            lim = [int(r.random() < 0.4) for _ in range(size)]
        elif h['fill'] == 'all':
            lim = [1] * size
        few = h['fill'] == 'few'                      # a handful of entries
        if few:
            lim = [r.choice([0, 0, 1, 1, 1, 2]) for _ in range(size)]
        data = np.array([x * (1 if few else r.randint(1, 1000) if t not in 'FD' else r.choice([0.5, 1.25, 3e4, 1e-3])) for x in lim],
                        dtype='<f4' if t in 'FD' else '<i4')
        if h['fill'] == 'cancel' and t in 'FD' and ny > 1:
            # weighted entries that add up to nothing along one axis
            data = data.reshape(ny, nx)
            data[1] = -data[0]
            data[2:] = 0
            data = data.ravel()
        stored = h['fill'] != 'none'
        b.i32(r.randint(0, 10**6)).i32(r.randint(1, 10**6) if stored else 0)
        axes = []
        for ax in 'xy' if ny else 'x':
            b.i32(r.randint(0, 100)).i32(r.randint(0, 100))
            lo = r.randint(-1000, 1000)
            hi = lo + r.choice([1, 7, 100, 5000])
            if t in 'RrFD':
                lo, hi = lo / 8, hi / 8
                b.f32(lo).f32(hi).f32(1.5).f32(2.5)
            else:
                b.i32(lo).i32(hi).i32(r.randint(0, 100)).i32(5)
            axes.append((lo, hi))
        if t in 'FD':
            b.f32(1.0).f32(2.0).arr(np.zeros(8, '<f4'))
        if stored:
            b.arr(data)
        out.append(dict(title=title, data=data.reshape(ny, nx) if ny else data, x=axes[0], y=axes[1] if ny else None, nx=nx, ny=ny))
    n = Node(100, sp['v'], 0, payload=bytes(b.b), expect=out, name='histograms')
    return n


def picture(fig):
    """what a figure shows, as far as it is understood"""
    if not fig.axes:
        return None
    ax = fig.axes[0]
    p = dict(title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim())
    mesh = [c for c in ax.collections if isinstance(c, QuadMesh)]
    bars = [c for c in ax.patches if type(c) is Rectangle]
    if len(mesh) == 1 and not bars:
        xy = np.asarray(mesh[0].get_coordinates(), float)
        if xy.ndim == 3:
            p['mesh'] = (np.ma.filled(np.ma.asarray(mesh[0].get_array(), float), 0.0).reshape(xy.shape[0] - 1, xy.shape[1] - 1), xy[0, :, 0], xy[:, 0, 1])
    elif bars and not ax.collections:
        p['bars'] = sorted((b.get_x(), b.get_width(), b.get_height() + (b.get_y() if b.get_height() else 0)) for b in bars)
    return p


def close(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-5 * scale))


def judge(ctx, n, pic, h):
    if pic is None:
        return
    xs = np.linspace(h['x'][0], h['x'][1], h['nx'] + 1)
    sx = max(1.0, abs(h['x'][0]), abs(h['x'][1]))
    what = 'figure %d' % n
    if pic['title'] != h['title']:
        ctx.fail('title', '%s: title %r instead of %r' % (what, pic['title'], h['title']))
    d = np.asarray(h['data'], float)
    sd = max(1e-3, np.abs(d).max())
    if h['ny']:
        if 'bars' in pic:
            ctx.fail('contents', '%s: a 2D histogram is drawn as bars' % what)
        if 'mesh' not in pic:
            return
        ys = np.linspace(h['y'][0], h['y'][1], h['ny'] + 1)
        sy = max(1.0, abs(h['y'][0]), abs(h['y'][1]))
        m, mx, my = pic['mesh']
        if not close(mx, xs, sx) or not close(my, ys, sy):
            ctx.fail('axes', '%s: bin edges %s %s instead of %s %s' % (what, mx, my, xs, ys))
        if not close(m, d, sd):
            ctx.fail('contents', '%s: contents %s instead of %s' % (what, m, d))
        iy, ix = np.nonzero(d)
        inside(ctx, what, 'y', pic['ylim'], ys, iy, sy)
    else:
        if 'mesh' in pic:
            ctx.fail('contents', '%s: a 1D histogram is drawn as a mesh' % what)
        if 'bars' not in pic:
            return
        ix, = np.nonzero(d)
        if len(pic['bars']) == h['nx']:
            if not close([b[0] for b in pic['bars']], xs[:-1], sx) or not close([b[0] + b[1] for b in pic['bars']], xs[1:], sx):
                ctx.fail('axes', '%s: bars %s for edges %s' % (what, pic['bars'], xs))
        seen = np.zeros(h['nx'])
        for x, width, height in pic['bars']:
            i = int(np.argmin(np.abs(xs[:-1] - x)))
            if height and abs(xs[i] - x) > 1e-5 * sx:
                ctx.fail('axes', '%s: a bar at %r for edges %s' % (what, x, xs))
            seen[i] += height
        if not close(seen, d, max(1e-3, np.abs(d).sum())):
            ctx.fail('contents', '%s: bars %s instead of contents %s' % (what, seen, d))
        if len(ix):
            lo, hi = sorted(pic['ylim'])
            if not (lo <= d.min() and d.max() <= hi):
                ctx.fail('range', '%s: contents %s..%s are outside of the shown range %s' % (what, d.min(), d.max(), pic['ylim']))
    inside(ctx, what, 'x', pic['xlim'], xs, ix, sx)


def inside(ctx, what, ax, lim, edges, filled, scale):
    if len(filled) == 0:
        return
    lo, hi = min(lim), max(lim)
    a, b = edges[filled.min()], edges[filled.max() + 1]
    if lo > a + 1e-5 * scale or hi < b - 1e-5 * scale:
        ctx.fail('range', '%s: bins with contents (%s: %g to %g) are outside of the shown range %g to %g' % (what, ax, a, b, lo, hi))


END = {'png': b'IEND\xaeB`\x82', 'pdf': b'%%EOF', 'svg': b'</svg>'}


def execute(plan, ctx):
    nodes = [histograms(sp) if sp['k'] == 'H' else gen.realize(sp) for sp in plan['items']]
    if not nodes or plan['fmt'] not in END:
        raise BadPlan('empty')
    data = encode_file(nodes)
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut']) if plan.get('cut') else gen.Torn(gen.store(data, st), data, len(data), True)
    path = ctx.write('in' + gen.SUFFIX[st['fmt']], t.stored)
    torn = plan.get('cut') and not (t.complete and len(t.content) in [0] + [n.end for n in nodes])
    # figures that have to be there, and figures that may be there
    must = [h for n in nodes if n.name == 'histograms' and n.end <= t.low for h in n.expect]
    may = [h for n in nodes if n.name == 'histograms' and n.end <= len(t.content) for h in n.expect]
    half = [n for n in nodes if n.name == 'histograms' and t.low >= n.addr and len(t.content) < n.end]
    ctx.nontrivial = bool(must)
    ctx.key += [plan['items'], st, plan['fmt'], plan.get('cut'), plan.get('eio'), plan.get('kill'), plan['io'].get('write')]
    if plan.get('kill'):
        plan['io']['helper_n'] = {str(plan['kill']['n']): {plan['kill']['how']: len(data) * plan['kill']['at'] // 10**6}}
    saved = []
    real = matplotlib.figure.Figure.savefig

    def savefig(fig, fname, *a, **k):
        saved.append([os.path.basename(str(fname)), picture(fig), False])
        me = len(saved) - 1
        r = real(fig, fname, *a, **k)
        saved[me][2] = True
        return r
    matplotlib.figure.Figure.savefig = savefig
    try:
        with ctx.open_world(plan['io']) as w:
            from eventio.scripts import plot_hists as tool
            if plan.get('eio'):
                w.arm(*plan['eio'])
            r = run_main(ctx, tool.main, ['eventio_plot_histograms', path, '-o', ctx.path('fig'), '-f', plan['fmt'], '-r', '30'], sys.stdout)
            fired = bool(plan.get('eio')) and w.armed is None
            w.armed = None
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close('all')
    ok = r[0] == 'ok'
    wf = [k for k in w.counts if k.startswith('fault:') and ('write_E' in k or 'close_E' in k)]
    files = sorted(f for f in os.listdir(ctx.dir) if f.startswith('fig'))
    ctx.log(r[0], 'saved', [s[0] for s in saved], 'files', files, 'must', len(must), 'torn', bool(torn), 'faults', wf, fired)
    warned = any('truncat' in str(x.message).lower() for x in ctx.warnings)
    # every figure that was saved shows its histogram
    for i, (name, pic, done) in enumerate(saved):
        if i >= len(may):
            ctx.fail('extra', 'a figure %s is saved for which no histogram is stored' % name)
        judge(ctx, i + 1, pic, may[i])
    # files
    want = ['fig_%03d.%s' % (i + 1, plan['fmt']) for i in range(len(may))]
    extra = sorted(set(files) - set(want))
    if extra:
        ctx.fail('extra', 'unexpected output files %s' % extra)
    if [s[0] for s in saved] != want[:len(saved)]:
        ctx.fail('names', 'figures are saved as %s' % [s[0] for s in saved])
    if ok or not (wf or fired or plan.get('kill')):
        missing = [f for f in want[:len(must)] if f not in files]
        if missing:
            ctx.fail('missing', '%d of %d stored histograms have no figure (%s, %s); the tool ends with %s %s' % (
                len(missing), len(must), missing[0], 'torn file' if torn else 'intact file', r[0], r[1]))
    if ok:
        if wf:
            ctx.fail('unreported', 'writing a figure failed (%s), but the tool reports success' % wf)
        for f in files:
            with W.real_open(ctx.path(f), 'rb') as g:
                if END[plan['fmt']] not in g.read()[-40:]:
                    ctx.fail('incomplete', 'success with an incomplete figure %s' % f)
        if half:
            ctx.fail('torn', 'histograms that are not completely stored, and the tool reports success')
        if torn and not warned:
            ctx.fail('unreported', 'the file is torn, and the tool reports success without a warning')
        if not torn and warned:
            ctx.fail('unreported', 'the tool warns of a truncated file, which is complete')
    elif not (torn or wf or fired or plan.get('kill') or (plan.get('cut') and not t.content)):
        ctx.fail('failed', 'plotting an intact file fails: %s: %s' % (r[0], r[1]))
    ctx.probe('figures', len(files))
    ctx.probe('empty histograms', sum(not np.any(h['data']) for h in must))
    ctx.probe('2D', sum(bool(h['ny']) for h in must))
    ctx.probe('failure reported', not ok)
