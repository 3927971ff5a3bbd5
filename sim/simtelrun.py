"""Driving SimTelFile in a simulation and comparing it with the reference reader."""
from . import gen, low
from .compare import diff, short
from .simtelgen import MONI, assemble, selected

ALL = dict(nt=0, cal=0, tels=None, form='list')


def open_simtel(ctx, path, st, opt):
    from eventio import SimTelFile
    tels = opt['tels']
    if tels is not None:
        tels = dict(list=list, set=set, tuple=tuple)[opt['form']](tels)
    return SimTelFile(path, skip_non_triggered=bool(opt['nt']), skip_calibration=bool(opt['cal']),
                      allowed_telescopes=tels, zcat=st['fmt'] != 'gzpy')


def ev_diff(want, got, name):
    """None or the first difference; calibration event ids are compared by magnitude"""
    if not isinstance(got, dict):
        return '%s: not a dict: %s' % (name, short(got))
    w, g = dict(want), dict(got)
    if w.get('type') == 'calibration' and isinstance(g.get('event_id'), int):
        w['event_id'], g['event_id'] = abs(w['event_id']), abs(g['event_id'])
    return diff(w, g, name)


def eof_warnings(ctx, since=0):
    from eventio.simtel.simtelfile import UnknownObjectWarning
    return [w for w in ctx.warnings[since:] if issubclass(w.category, UserWarning)
            and not issubclass(w.category, UnknownObjectWarning)]


def runlevel_diff(f, ref, n_tel, skip=None):
    """None or the first difference in what the reader exposes besides events"""
    for name, want, got in [
            ('header', ref.header, f.header), ('mc_run_headers', ref.mc_run_headers, f.mc_run_headers),
            ('corsika_inputcards', ref.cards, f.corsika_inputcards), ('atmospheric_profiles', ref.profiles, f.atmospheric_profiles),
            ('history', ref.history, f.history), ('global_meta', ref.global_meta, f.global_meta),
            ('telescope_meta', ref.tel_meta, f.telescope_meta), ('histograms', ref.histograms, f.histograms),
            ('telescope_descriptions', dict(ref.descr), dict(f.telescope_descriptions)), ('n_telescopes', n_tel, f.n_telescopes)]:
        if skip == name:
            continue            # a torn list of history entries: each complete one may be there
        d = diff(want, got, name)
        if d:
            return d
    for key in MONI.values():
        want = {t: m for t, m in ref.moni[key].items() if m}
        got = {t: m for t, m in getattr(f, key).items() if m}
        d = diff(want, got, key)
        if d:
            return d


def check_runlevel(ctx, f, ref, n_tel):
    d = runlevel_diff(f, ref, n_tel)
    if d:
        ctx.fail('runlevel', d)


# ------------------------------------------------------------------ torn files
def candidates(tops, t):
    """numbers of top-level objects that a reader may regard as stored completely"""
    lo = hi = 0
    while lo < len(tops) and tops[lo].node.end <= t.low:
        lo += 1
    while hi < len(tops) and tops[hi].node.end <= len(t.content):
        hi += 1
    # one more: its meaningful bytes may be complete although its padding (or a part the
    # reader was asked to leave out) is not
    if hi < len(tops) and tops[hi].node.addr <= len(t.content):
        hi += 1
    return list(range(hi, lo - 1, -1))


def clean_end(tops, t):
    ends = {0} | {x.node.end for x in tops}
    return t.complete and len(t.content) in ends


def read_torn(ctx, plan, tops, n_head, t, path, opt):
    """Open and read a (possibly) torn file to its end; compare with every acceptable prefix."""
    ks = candidates(tops, t)
    since = len(ctx.warnings)
    r = ctx.call(open_simtel, ctx, path, plan['st'], opt)
    if r[0] != 'ok':
        ok = t.eof + (('ValueError',) if t.low < 4 else ())
        if min(ks) >= n_head:
            ctx.fail('open', 'the run header block survived, but opening raises %s: %s' % (r[0], r[1]))
        if r[0] not in ok:
            ctx.fail('open-error', 'a file that ends within its run header block: opening raises %s: %s, not EOFError' % (r[0], r[1]))
        ctx.probe('torn run header refused')
        return None
    f = r[1]
    if max(ks) < n_head:
        ctx.fail('open', 'a file that ends within its run header block can be opened (%d of %d bytes survive)' % (
            len(t.content), tops[-1].node.end))
    ks = [k for k in ks if k >= n_head]
    full = max(ks) if ks else 0
    got, odd = [], False
    limit = len(tops) + 5
    while True:
        r = ctx.call(next, f)
        if r[0] == 'StopIteration':
            break
        if r[0] != 'ok':
            if t.odd and r[0] in t.eof:
                ctx.probe('one byte of a further gzip member')
                odd = True
                break
            ctx.fail('error', 'iterating a file torn at %d of %d bytes raises %s after %d events: %s' % (
                len(t.content), tops[-1].node.end, r[0], len(got), r[1]))
        got.append(r[1])
        if len(got) > limit:
            ctx.fail('extra', 'more events than objects')
    first = None
    match = None
    for k in ks:
        ref = assemble(tops[:k], opt['tels'])
        want = [e for e in ref.events if selected(e, opt)]
        if odd and len(got) == len(want) - 1:
            want = want[:-1]
        d = None
        for i, (w, g) in enumerate(zip(want, got)):
            d = ev_diff(w, g, 'event %d (%s %s)' % (i, w['type'], w['event_id']))
            if d:
                break
        if d is None and len(want) != len(got):
            d = '%d events delivered, %d expected' % (len(got), len(want))
        if d is None and not odd:
            d = runlevel_diff(f, ref, len(plan['run']['tels']), skip=k < len(tops) and tops[k].kind)
        if d is None:
            match = ref
            break
        first = first or d
    if match is None:
        ctx.fail('events', 'torn at %d of %d bytes (%d complete objects): %s' % (
            len(t.content), tops[-1].node.end, full, first))
    for _ in range(2):
        r = ctx.call(next, f)
        if r[0] != 'StopIteration' and not odd:
            ctx.fail('end', 'after the end: %s %s' % (r[0], short(r[1])))
    w = eof_warnings(ctx, since)
    if clean_end(tops, t) or match.ended and t.complete and len(t.content) == tops[-1].node.end:
        if w:
            ctx.fail('warning', 'a file that ends on an object boundary gives the warning: %s' % w[0].message)
    elif not w and not match.ended and not odd:
        ctx.fail('silent', 'torn at %d of %d bytes, but iteration ends without a warning' % (len(t.content), tops[-1].node.end))
    elif w:
        ctx.probe('truncation warned')
    f.close()
    return got
