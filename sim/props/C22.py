"""Inspection tools account for exactly the surviving objects and say if torn."""
import collections
import contextlib
import datetime
import errno
import io
import json
import os
import random
import re
import sys

from .. import enc, gen, low, objs
from ..core import BadPlan
from . import C20

ID = 'C22'
QUICK, THOROUGH = 12000, 600000
RULE = ('one simulated run = one inspection tool (structure, object information, metaparams, history) on one generated file in one '
        'container, intact, torn, with a read error or a failing gzip process, writing to an output that is fine, whose reader goes '
        'away, or whose device fails at a chosen byte; non-trivial if at least one object is listed')
REAL = ['eventio.scripts.print_*', 'eventio.search_utils', 'eventio.base', 'argparse', 'gzip module', 'zstandard',
        'text and buffer layers of the output']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, errors)', 'raw standard output (broken pipe, device errors)', 'clock']
ASSUME = ['success is returning from main() or exit status 0 and flushing the output without an error',
          'a tool whose reader has gone away may end quietly, as the tools document by catching BrokenPipeError',
          'the truncation may be reported by a warning, a line of output, or a failure']


class Out(io.RawIOBase):
    """standard output on a device that fails"""

    def __init__(self, plan, world):
        self.p, self.n, self.data, self.w, self.fired = plan or {}, 0, bytearray(), world, 0

    def writable(self):
        return True

    def write(self, b):
        self.w.step('stdout')
        b = bytes(b)
        at = self.p.get('at')
        if at is not None and len(self.data) + len(b) > at and not (self.p.get('once') and self.fired):
            room = max(0, at - len(self.data))
            if room and self.p.get('short'):
                self.data += b[:room]
                return room
            self.fired += 1
            self.w.count('fault:stdout_' + self.p['e'])
            e = getattr(errno, self.p['e'])
            raise OSError(e, os.strerror(e))
        self.data += b
        return len(b)


def make(rng, idx, tier):
    tool = rng.choice(['structure', 'structure', 'structure', 'info', 'info', 'meta', 'history'])
    plan = dict(tool=tool, io=gen.io_spec(rng))
    if tool in ('meta', 'history'):
        plan['items'] = meta_items(rng)
        plan['mode'] = rng.choice(['text', 'json', 'text', 'diff']) if tool == 'meta' else 'text'
    else:
        plan['tree'] = C20.make_tree(rng) if rng.random() < 0.5 else repeats(rng)
        plan['mode'] = rng.choice(['text', 'alt'])
        plan['m'] = rng.choice([None, None, 0, 1, 2, 3, 5, 100])
    st = plan['st'] = gen.storage_spec(rng, ('plain', 'plain', 'gz', 'gz', 'zst', 'gzpy'))
    r = rng.random()
    if r < 0.4:
        plan['cut'] = gen.cut_spec(rng)
    elif r < 0.5 and st['fmt'] == 'plain':
        plan['eio'] = [rng.choice(['EIO', 'EIO', 'seekEIO', 'KI']), rng.choice([0, 1, 2, 5, rng.randint(0, 60)])]
        plan['io']['buf'] = rng.choice([1, 16, 64, 512])
    elif r < 0.55 and st['fmt'] == 'gz':
        plan['io']['helper'][rng.choice(['kill_at', 'err_at'])] = rng.randint(0, 2000)
        plan['hurt'] = 1
    if rng.random() < 0.3:
        plan['out'] = dict(e=rng.choice(['EPIPE', 'EPIPE', 'EIO', 'ENOSPC']), at=rng.choice([0, 1, 60, 200, rng.randint(0, 3000)]),
                           short=int(rng.random() < 0.5))
        if plan['out']['e'] == 'EIO' and rng.random() < 0.3:
            plan['out']['once'] = 1
    plan['line'] = int(rng.random() < 0.4)
    plan['obuf'] = rng.choice([1, 16, 100, 8192])
    return plan


def repeats(rng):
    """long runs of objects of one type"""
    out = []
    for _ in range(rng.randint(1, 4)):
        sp = rng.choice([lambda: gen.rec_spec(rng, sc=0), lambda: gen.cont_spec(rng, 1, width=2), lambda: gen.raw_spec(rng)])()
        out += [dict(sp) for _ in range(rng.choice([1, 2, 4, 5, 6, 7, 12]))]
    if rng.random() < 0.5:
        c = gen.cont_spec(rng, 0, width=0)
        out = [dict(c, c=out)]
    return out


def meta_items(rng):
    s = lambda: rng.randint(0, 10**9)
    items = [['hist', [[rng.choice(['hist_cmd', 'hist_cfg']), s(), rng.choice([0, 1, 2])] for _ in range(rng.randint(0, 4))]]
             for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if items and rng.random() < 0.3:
        # the same command, configuration line or block is recorded again
        h = [list(e) for e in items[-1][1]]
        if h and rng.random() < 0.6:
            h.append(list(rng.choice(h)))
            items[-1][1].append(list(h[-1]))
        else:
            items.append(['hist', h])
    if rng.random() < 0.2:
        items.append(['other', s()])
    tels = list(range(1, rng.choice([1, 2, 4, 8])))
    ids = [-1] * int(rng.random() < 0.8) + tels
    if rng.random() < 0.3:
        rng.shuffle(ids)
    items += [['meta', i, s(), rng.choice([0, 1, 2, 3])] for i in ids]
    for _ in range(rng.choice([0, 0, 1, 2])):
        items.append(['other', s()])
        if rng.random() < 0.3:
            items.append(['meta', rng.choice([-1, 1, 2]), s(), 1])
        if rng.random() < 0.3:
            items.append(['hist', [['hist_cmd', s(), 1]]])
    return items or [['other', s()]]


def realize_meta(items):
    out = []
    try:
        for it in items:
            if it[0] == 'hist':
                out.append(enc.Node(70, 0, 0, children=[objs.build(n, s, 0, sc) for n, s, sc in it[1]], name='c_history'))
            elif it[0] == 'meta':
                out.append(objs.build('hist_meta', it[2], 0, it[3], tel=None if it[1] < 0 else it[1]))
            else:
                out.append(gen.realize(gen.raw_spec(random.Random('o/%s' % it[1]))))
    except (KeyError, TypeError, ValueError, IndexError, AssertionError) as e:
        raise BadPlan(repr(e))
    return out, enc.encode_file(out)


ARGS = dict(structure=lambda p: ['-r'] * (p['mode'] == 'alt') + (['-m', str(p['m'])] if p['m'] is not None else []),
            info=lambda p: ['--json'] * (p['mode'] == 'alt'), history=lambda p: [],
            meta=lambda p: {'json': ['--json'], 'diff': ['--tel-diff', '1', '2']}.get(p['mode'], []))
MODULE = dict(structure='print_structure', info='print_object_information', meta='print_simtel_metaparams', history='print_simtel_history')


def run_tool(ctx, plan, path, raw, alive=None):
    import importlib
    mod = importlib.import_module('eventio.scripts.' + MODULE[plan['tool']])
    out = io.TextIOWrapper(io.BufferedWriter(raw, max(1, plan['obuf'])), encoding='utf8', line_buffering=bool(plan['line']))
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ['tool', path] + ARGS[plan['tool']](plan)
    sys.stdout, sys.stderr = out, io.StringIO()
    try:
        try:
            r = ctx.call(mod.main)
        except SystemExit as e:
            r = ('ok', None) if e.code in (None, 0) else ('exit %s' % (e.code,), e)
        # what the interpreter does at exit
        f = ctx.call(out.flush)
        if r[0] == 'ok' and f[0] != 'ok':
            r = f
        return r
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        with contextlib.suppress(OSError, ValueError):
            raw.p = {}
            n = len(raw.data)
            out.close()
            del raw.data[n:]


def execute(plan, ctx):
    tool = plan['tool']
    nodes, data = realize_meta(plan['items']) if tool in ('meta', 'history') else gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    st = plan['st']
    t = gen.torn(data, nodes, st, plan['cut']) if plan.get('cut') else gen.Torn(gen.store(data, st), data, len(data), True)
    ctx.stats['fault:cut'] += len(t.content) < len(data)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    ctx.key += [plan.get('tree'), plan.get('items'), st, tool, plan['mode'], plan.get('m'), len(t.stored), plan.get('out'), plan.get('eio')]
    limit = len(t.content)
    torn = not t.complete or limit not in [0] + [n.end for n in nodes]
    with ctx.open_world(plan['io']) as w:
        if plan['st']['fmt'] == 'gzpy':
            # without the gzip program
            w.helper_cfg = dict(w.helper_cfg, spawn='ENOENT')
        raw = Out(plan.get('out'), w)
        if plan.get('eio'):
            w.arm(*plan['eio'])
        r = run_tool(ctx, plan, path, raw)
        fired = bool(plan.get('eio')) and w.armed is None
        w.armed = None
        killed = any(k.startswith('fault:helper') for k in w.counts) and not plan['st']['fmt'] == 'gzpy'
    ok = r[0] == 'ok'
    text = raw.data.decode('utf8', 'replace')
    lost = raw.fired and plan['out']['e']
    reported = not ok or any('trunc' in str(x.message) or 'gzip' in str(x.message) for x in ctx.warnings)
    ctx.log(tool, plan['mode'], 'result', r[0], 'bytes', len(text), 'output fault', lost, 'warned', len(ctx.warnings))
    if lost and lost != 'EPIPE' and ok:
        ctx.fail('output', '%s: writing the output failed (%s), but the tool reports success' % (MODULE[tool], lost))
    if fired and ok and plan['eio'][0] != 'KI' and not lost:
        ctx.fail('swallowed', '%s: an injected %s on a read, but the tool reports success' % (MODULE[tool], plan['eio'][0]))
    if fired and ok and not lost:
        ctx.fail('swallowed', '%s: an interrupt, but the tool reports success' % MODULE[tool])
    if t.low < 4:
        if ok and limit < 4:
            ctx.fail('silent', '%s reports success for a file of %d bytes' % (MODULE[tool], limit))
        return
    hurt = fired or killed or lost
    want = [(n, lv) for n, lv in flat(nodes) if n.addr + min(n.fixed, n.size) <= limit]
    sure = sum(n.addr + min(n.fixed, n.size) <= t.low for n, _ in want)
    c = dict(ok=ok, r=r, text=text, want=want, sure=sure, torn=torn, hurt=hurt, reported=reported, t=t, nodes=nodes)
    dict(structure=structure, info=info, meta=meta, history=history)[tool](plan, ctx, c)


def flat(nodes, lv=0):
    yield from C20.flat(nodes, lv)


def complete_lines(c):
    lines = c['text'].split('\n')
    return lines[:-1]


def name_of(n):
    return C20.class_name(n).split('.')[-1]


# ------------------------------------------------------------------ print_structure
def structure(plan, ctx, c):
    lines = complete_lines(c)
    want, i, said, prev, seen, run = c['want'], 0, False, None, 0, 0
    limit = 5 if plan['m'] is None else plan['m']
    for k, line in enumerate(lines):
        if not re.match(r' +(\w+\[|And )', line) and k == len(lines) - 1:
            said = True
            continue
        m = re.match(r' *And (\d+) ', line)
        if m:
            n = int(m.group(1))
            for _ in range(n):
                if i >= len(want):
                    ctx.fail('count', 'print_structure: %r, but only %d objects are left' % (line, n - _ - 1))
                if prev is not None and name_of(want[i][0]) != prev or prev is None and limit > 0:
                    ctx.fail('count', 'print_structure: %r, but object %d is a %s' % (line, i, name_of(want[i][0])))
                if prev is None and _ == 0:
                    prev0 = name_of(want[i][0])
                if prev is None and name_of(want[i][0]) != prev0:
                    ctx.fail('count', 'print_structure: %r, but object %d is a %s' % (line, i, name_of(want[i][0])))
                i += 1
            indent = len(line) - len(line.lstrip(' '))
            if n and indent != 4 * want[i - 1][1] + 1:
                ctx.fail('level', 'print_structure: %r with indent %d, the objects are at level %d' % (line, indent, want[i - 1][1]))
            prev, run = None if limit <= 0 else prev, 0
            ctx.probe('objects summarised', n)
            continue
        if i >= len(want):
            ctx.fail('extra', 'print_structure prints %r after all %d surviving objects' % (line, len(want)))
        n, lv = want[i]
        exp = '%s[%d]' % (name_of(n), n.type)
        if plan['mode'] == 'alt':
            exp += '(size=%d, only_subobjects=%s, address=%d)' % (n.size, n.only_sub, n.addr)
        got = line.strip()
        indent = len(line) - len(line.lstrip(' '))
        if not (got == exp if plan['mode'] == 'alt' else got.startswith(exp)):
            ctx.fail('listing', 'print_structure prints %r as object %d, stored is %s' % (line, i, exp))
        if indent != 4 * lv + 1:
            ctx.fail('level', 'print_structure prints object %d (%s) with indent %d, it is at level %d' % (i, exp, indent, lv))
        run = run + 1 if name_of(n) == prev else 1
        if exp.split('[')[0] != 'EventIOObject' and run > limit:
            ctx.fail('repeats', 'print_structure prints %d %s in a row, only %d were wanted' % (run, exp, limit))
        prev = name_of(n)
        i += 1
        seen += 1
    ctx.nontrivial = seen > 0
    judge_end(ctx, c, i, said, 'print_structure')


def judge_end(ctx, c, n, said, tool):
    if c['hurt']:
        return
    if n < c['sure']:
        ctx.fail('lost', '%s accounts for %d of %d surviving objects (%d bytes), then %s' % (
            tool, n, c['sure'], len(c['t'].content), c['r'][0]))
    if c['torn']:
        if not said and not c['reported']:
            ctx.fail('silent', '%s does not report that the file is torn (%d of %d bytes)' % (
                tool, len(c['t'].content), c['nodes'][-1].end))
        if not c['ok'] and not isinstance(c['r'][1], (EOFError, OSError)):
            ctx.fail('error', '%s on a torn file fails with %s: %s' % ((tool,) + c['r']))
    else:
        if not c['ok']:
            ctx.fail('error', '%s on an intact file fails with %s: %s' % ((tool,) + c['r']))
        if said or c['reported']:
            ctx.fail('warned', '%s reports a truncation of an intact file' % tool)


# ------------------------------------------------------------------ print_object_information
def key_of(n, lv):
    name = name_of(n)
    t = {'TrackingPosition': 2100, 'TelescopeEvent': 2200}.get(name, n.type)
    c = C20.cls_of(C20.class_name(n))
    return t, n.version, lv, (c.__module__ + '.' + c.__qualname__).split('.', 1)[1]


def info(plan, ctx, c):
    got = collections.Counter()
    if not c['ok'] and not c['text']:
        if not c['hurt'] and not (c['torn'] and isinstance(c['r'][1], OSError)):
            ctx.fail('error', 'print_object_information fails with %s: %s' % c['r'])
        return
    if c['hurt']:
        return
    if plan['mode'] == 'alt':
        try:
            rows = [(d['type'], d['version'], d['level'], d['name'], d['number_of_objects']) for d in json.loads(c['text'])]
        except ValueError:
            ctx.fail('json', 'print_object_information --json prints %r' % c['text'][:200])
    else:
        rows = []
        for line in complete_lines(c):
            p = [x.strip() for x in line.split('|')]
            if len(p) == 5 and p[0].isdigit():
                rows.append((int(p[0]), int(p[1]), int(p[2]), p[4], int(p[3])))
    for t, v, lv, name, k in rows:
        got[(t, v, lv, name)] += k
    n = sum(got.values())
    if n < c['sure'] or n > len(c['want']):
        ctx.fail('count', 'print_object_information counts %d objects, %d survive' % (n, len(c['want'])))
    want = collections.Counter(key_of(*x) for x in c['want'][:n])
    if got != want:
        bad = next(k for k in list(got) + list(want) if got[k] != want[k])
        ctx.fail('count', 'print_object_information counts %d objects of (type, version, level, class) %s, stored are %d' % (
            got[bad], bad, want[bad]))
    ctx.nontrivial = n > 0
    ctx.probe('objects counted', n)
    judge_end(ctx, c, n, False, 'print_object_information')


# ------------------------------------------------------------------ print_simtel_metaparams
def text_of(d):
    return {k.decode(): v.decode() for k, v in d.items()}


def meta(plan, ctx, c):
    nodes, t = c['nodes'], c['t']
    first = next((i for i, n in enumerate(nodes) if n.type == 75), None)
    stop = len(nodes)
    glob, tels = None, {}
    if first is not None:
        for i in range(first, len(nodes)):
            if nodes[i].type != 75:
                stop = i
                break
            n = nodes[i]
            if n.id == -1:
                glob = text_of(n.expect)
            else:
                tels[n.id] = text_of(n.expect)
    # what has to be read: everything up to the first object behind the block, or the end of the file
    need = nodes[stop].addr + min(nodes[stop].fixed, nodes[stop].size) if stop < len(nodes) else nodes[-1].end
    short = len(t.content) < need or stop == len(nodes) and not t.complete
    clean = t.complete and len(t.content) in [n.end for n in nodes]
    if c['hurt']:
        return
    if short and clean:
        return        # an intact, shorter file; covered by other runs
    if short:
        if c['ok'] and not c['reported']:
            ctx.fail('silent', 'print_simtel_metaparams does not report that the file is torn before the end of the block')
        return
    if t.low < need:
        return
    if plan['mode'] == 'diff' and not (1 in tels and 2 in tels):
        if c['ok']:
            ctx.fail('diff', 'a difference between telescopes that are not in the file is reported as success')
        return
    if not c['ok']:
        ctx.fail('error', 'print_simtel_metaparams fails with %s: %s' % c['r'])
    ctx.nontrivial = first is not None
    if plan['mode'] == 'json':
        try:
            got = json.loads(c['text'])
        except ValueError:
            ctx.fail('json', 'print_simtel_metaparams --json prints %r' % c['text'][:200])
        want = dict(telescopes={str(k): v for k, v in tels.items()})
        want['global'] = glob
        if got != want:
            ctx.fail('meta', 'print_simtel_metaparams --json prints %s, stored are %s' % (c['text'][:300], str(want)[:300]))
        return
    if plan['mode'] == 'diff':
        a, b = ([('%s = %s' % kv) for kv in tels[i].items()] for i in (1, 2))
        body = [x for x in complete_lines(c) if x.strip() not in ('', '---', '+++')]
        old = [x[1:] for x in body if x[:1] in '- ' and x and not x.startswith('@@')]
        new = [x[1:] for x in body if x[:1] in '+ ' and x and not x.startswith('@@')]
        if a == b and c['text'].strip():
            ctx.fail('meta', 'a difference of equal metadata is printed: %r' % c['text'][:200])
        if a != b and (set(a) - set(b) - set(old) or set(b) - set(a) - set(new) or set(old) - set(a) or set(new) - set(b)):
            ctx.fail('meta', 'the printed difference %r is not that of %s and %s' % (c['text'][:300], a, b))
        return
    got, cur = {}, None
    for line in complete_lines(c):
        m = re.match(r'(Global METAPARAMs|METAPARAMs for telescope=(-?\d+))$', line)
        if m:
            cur = got.setdefault(m.group(2), [])
        elif line and not set(line) <= {'-'} and cur is not None:
            cur.append(line)
    want = {} if glob is None else {None: glob}
    want.update((str(k), v) for k, v in tels.items())
    for k in set(got) | set(want):
        if k not in got or k not in want:
            ctx.fail('meta', 'print_simtel_metaparams: metadata of %s is %s' % (k, 'missing' if k not in got else 'invented'))
        exp = ['%s = %s' % x for x in want[k].items()]
        if sorted(exp) != sorted(got[k]):
            ctx.fail('meta', 'print_simtel_metaparams: metadata of %s is %s, stored are %s' % (k, got[k], exp))
    ctx.probe('metadata blocks printed', len(got))


# ------------------------------------------------------------------ print_simtel_history
def history(plan, ctx, c):
    nodes, t = c['nodes'], c['t']
    recs, stop = [], len(nodes)
    for i, n in enumerate(nodes):
        if n.type != 70:
            stop = i
            break
        recs += n.children
    need = nodes[stop].addr + min(nodes[stop].fixed, nodes[stop].size) if stop < len(nodes) else nodes[-1].end
    lines = complete_lines(c)
    want = []
    for n in recs:
        ts, s = n.expect
        want.append(('%s %s' % (datetime.datetime.fromtimestamp(ts).strftime('%Y-%m-%dT%H:%M:%S'), s.decode().strip())).rstrip())
    alive = sum(n.addr <= len(t.content) for n in recs)      # a value may be complete without its padding
    sure = sum(n.end <= t.low for n in recs)
    for i, line in enumerate(lines):
        if i >= alive or line.rstrip() != want[i]:
            ctx.fail('history', 'print_simtel_history prints %r as line %d, stored is %s' % (
                line, i, want[i] if i < alive else 'nothing more'))
    ctx.nontrivial = bool(lines)
    if c['hurt']:
        return
    if len(lines) < sure:
        ctx.fail('lost', 'print_simtel_history prints %d of %d surviving records, then %s: %s' % (len(lines), sure, c['r'][0], c['r'][1]))
    clean = t.complete and len(t.content) in [n.end for n in nodes]
    if len(t.content) >= need and (t.complete or stop < len(nodes)) or clean:
        if not c['ok'] and (t.low >= need or clean):
            ctx.fail('error', 'print_simtel_history fails with %s: %s' % c['r'])
    elif c['ok'] and not c['reported']:
        ctx.fail('silent', 'print_simtel_history does not report that the file is torn inside the history')
    ctx.probe('history records printed', len(lines))
