"""Simulated sim_telarray runs: plans, stored bytes, and the events a reader must deliver.

The assembler is written from the documented file structure only. It works on the
objects that survived, so the same code gives the expectation for torn files.
"""
import collections
import struct

from . import enc, gen, objs
from .core import BadPlan
from .enc import Node

DESCR = [('s_camset', 'camera_settings'), ('s_camorg', 'camera_organization'), ('s_pixset', 'pixel_settings'),
         ('s_dispix', 'disabled_pixels'), ('s_camsoft', 'camera_software_settings'), ('s_drive', 'drive_settings'),
         ('s_point', 'pointing_correction')]
MONI = {'s_cammon': 'camera_monitorings', 's_laser': 'laser_calibrations', 's_pixmon': 'pixel_monitorings'}
UNKNOWN_TYPES = [7, 333, 1050, 1301, 1999, 10997]


def S(rng):
    return rng.randint(0, 10**9)


# ------------------------------------------------------------------ plans
def tel_event_spec(rng, tel):
    parts = []
    for k, p in (('s_samples', 0.3), ('s_sums', 0.5), ('s_image', 0.5), ('s_timing', 0.3)):
        if rng.random() < p:
            parts.append([k, S(rng), 0])
    for code in rng.sample([0, 1, 2], rng.choice([0, 0, 1, 2])):
        parts.append(['s_pixlist', S(rng), code])
    if rng.random() < 0.2:
        parts.append(['s_pixtrig', S(rng), 0])
    for aux in rng.sample(range(6), rng.choice([0, 0, 0, 1, 2])):
        parts.append([rng.choice(['s_auxdig', 's_auxana']), S(rng), aux])
    if rng.random() < 0.05:
        parts.insert(rng.randint(0, len(parts)), ['unk', S(rng), 0])
    return dict(tel=tel, s=S(rng), p=parts)


def array_spec(rng, num, tels, id0=False):
    trg = [t for t in tels if rng.random() < 0.8] or ([] if rng.random() < 0.2 else tels[:1])
    data = [t for t in trg if rng.random() < 0.9]
    rng.shuffle(data)
    return dict(num=num, s=S(rng), trg=trg, data=[tel_event_spec(rng, t) for t in data],
                # tracking exists at least for the telescopes with data
                track=[[t, S(rng)] for t in tels if t in data or rng.random() < 0.7],
                stereo=S(rng) if rng.random() < 0.4 else -1, tid=rng.choice([0, num, num, num + 7]) if id0 else num,
                unk=rng.choice([-1, -1, -1, -1, S(rng)]))


def moni_item(rng, tels):
    return dict(k=rng.choice(['s_cammon', 's_cammon', 's_laser', 's_pixmon']), tel=rng.choice(tels), s=S(rng))


def moni_block(rng, tels):
    out = []
    for t in tels:
        for k in ('s_cammon', 's_laser') + (('s_pixmon',) if rng.random() < 0.3 else ()):
            out.append(dict(k=k, tel=t, s=S(rng)))
    return out


def teldata_spec(rng, tels):
    ent = []
    for t in tels:
        for k in ('i_pe', 'i_photons'):
            if rng.random() < 0.5:
                ent.append([k, t, S(rng)])
    if rng.random() < 0.15:
        ent.insert(rng.randint(0, len(ent)), ['unk', 0, S(rng)])
    return dict(k='teldata', e=ent)


def run_spec(rng, moni=0.2):
    """a run of the documented structure; `moni`: how often monitoring data is updated"""
    nt = rng.choice([1, 1, 2, 3, 4])
    tels = rng.sample(range(1, 1000), nt) if rng.random() < 0.4 else list(range(1, nt + 1))
    head = [dict(k='hist', c=[[rng.choice(['hist_cmd', 'hist_cfg']), S(rng)] for _ in range(rng.randint(0, 3))])]
    if head[0]['c'] and rng.random() < 0.3:
        # the same command once more
        head[0]['c'].insert(rng.randint(0, len(head[0]['c'])), rng.choice(head[0]['c']))
    if rng.random() < 0.5:
        head.append(dict(k='meta', tel=-1, s=S(rng)))
        head += [dict(k='meta', tel=t, s=S(rng)) for t in tels if rng.random() < 0.8]
    head.append(dict(k='s_runh', s=S(rng)))
    for k in ('s_mcrunh', 'i_card', 'i_atm'):
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            head.append(dict(k=k, s=S(rng)))
    for t in tels:
        for k, _ in DESCR:
            head.append(dict(k=k, tel=t, s=S(rng)))
    items = []
    ev = rng.randint(1, 100)
    calib = rng.random()
    had_moni = False
    if calib < 0.45:
        items += moni_block(rng, tels)
        had_moni = True
        packed = calib < 0.3
        for _ in range(rng.randint(0, 3)):
            ev += 1
            if packed:
                if rng.random() < 0.4:
                    e = [[t, S(rng)] for t in tels if rng.random() < 0.8]
                    if rng.random() < 0.3:
                        # 0: unknown object, negative: photons of a telescope; both are to be ignored
                        e.insert(rng.randint(0, len(e)), [rng.choice([0, -rng.choice(tels)]), S(rng)])
                    items.append(dict(k='calpe', e=e))
                    if rng.random() < 0.2:
                        # nothing in it, or something else
                        items[-1]['w'] = rng.choice(['empty', 'unk', 'unk+'])
                items.append(dict(k='calib', t=rng.choice([-1, 0, 1, 2, 3]), a=array_spec(rng, ev, tels, True)))
            else:
                items.append(dict(k='array', a=array_spec(rng, ev, tels, True)))
            while rng.random() < moni:
                items.append(moni_item(rng, tels))
    shower = rng.randint(1, 50)
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        shower += rng.randint(1, 3)
        items.append(dict(k='shower', num=shower, s=S(rng)))
        if rng.random() < 0.3:
            items.append(dict(k='obspart', s=S(rng)))
        for use in range(rng.choice([0, 1, 1, 2, 3])):
            num = shower * 100 + use
            items.append(dict(k='mcevent', num=num, shower=shower, s=S(rng)))
            if rng.random() < 0.4:
                items.append(teldata_spec(rng, tels))
            trig = rng.random() < 0.7
            if trig and not had_moni:
                items += moni_block(rng, tels)
                had_moni = True
            while rng.random() < moni:
                items.append(moni_item(rng, tels))
            if rng.random() < 0.5:
                items.append(dict(k='mcpe', num=num, s=S(rng)))
            if trig:
                items.append(dict(k='array', a=array_spec(rng, num, tels)))
            while rng.random() < moni:
                items.append(moni_item(rng, tels))
            if rng.random() < 0.08:
                items.append(dict(k='unk', s=S(rng)))
            if rng.random() < 0.05:
                items.append(dict(k='hist', c=[['hist_cmd', S(rng)]]))
    if rng.random() < 0.6:
        items.append(dict(k='histos', s=S(rng)))
    return dict(tels=tels, head=head, items=items, sc=rng.choice([0, 1, 1, 1, 2]), x=int(rng.random() < 0.2))


def options_spec(rng, tels):
    al = None
    if rng.random() < 0.6:
        al = [t for t in tels if rng.random() < 0.5]
        if rng.random() < 0.15:
            al.append(rng.choice([5000, 998]))
        al = sorted(set(al)) or [rng.choice(tels)]
    return dict(nt=int(rng.random() < 0.5), cal=int(rng.random() < 0.5), tels=al, form=rng.choice(['list', 'set', 'tuple']))


# ------------------------------------------------------------------ bytes
class Top:
    __slots__ = ('kind', 'node', 'info')

    def __init__(self, kind, node, info=None):
        self.kind, self.node, self.info = kind, node, info


def _b(name, s, sc, v=None, **kw):
    vs = objs.BUILDERS[name][1]
    return objs.build(name, s, vs[s % len(vs)] if v is None else v, sc, **kw)


def _unk(s):
    return gen.realize(dict(k='raw', t=UNKNOWN_TYPES[s % len(UNKNOWN_TYPES)], v=0, id=s % 1000, u=0, x=0,
                            n=s % 40, s=s))


def _array(a, sc):
    data = [d['tel'] for d in a['data']]
    tr = [t for t, _ in a['track']]
    if len(set(data)) < len(data) or not set(data) <= set(a['trg']) or bool(a.get('bad')) == (set(data) <= set(tr)) or len(set(tr)) < len(tr):
        raise BadPlan('array event structure')
    trig = _b('s_trig', a['s'], sc, v=0 if a['s'] % 8 == 0 else 1 + a['s'] % 3, tels=a['trg'], data=data, count=a['tid'])
    kids = [trig]
    info = dict(bad=bool(a.get('bad')), trig=trig, tel={}, track={}, stereo=None, data=data, num=a['num'], tid=a['tid'])
    for d in a['data']:
        t = d['tel']
        h = _b('s_telhead', d['s'], sc, tel=t)
        sub = [h]
        e = dict(pixel_lists={}, header=h.expect)
        for k, s, arg in d['p']:
            if k == 'unk':
                sub.append(_unk(s))
                continue
            kw = dict(tel=t)
            if k == 's_pixlist':
                kw['code'] = arg
            if k in ('s_auxdig', 's_auxana'):
                kw['aux'] = arg
            n = _b(k, s, sc, **kw)
            sub.append(n)
            if k == 's_pixlist':
                if arg in e['pixel_lists']:
                    raise BadPlan('two lists')
                e['pixel_lists'][arg] = n.expect
            elif k in ('s_auxdig', 's_auxana'):
                if arg in e.setdefault('aux_traces', {}):
                    raise BadPlan('two traces')
                e['aux_traces'][arg] = n.expect
            else:
                key = dict(s_samples='adc_samples', s_sums='adc_sums', s_image='image_parameters',
                           s_timing='pixel_timing', s_pixtrig='pixel_trigger_times')[k]
                if key in e:
                    raise BadPlan('twice')
                e[key] = n.expect
        kids.append(Node(gen.tel_event_type(t), 0, a['num'], children=sub, name='c_tel'))
        info['tel'][t] = e
    for t, s in a['track']:
        n = _b('s_track', s, sc, tel=t)
        kids.append(n)
        info['track'][t] = n.expect
    if a['stereo'] >= 0:
        n = _b('s_stereo', a['stereo'], sc)
        kids.append(n)
        info['stereo'] = n.expect
    if a['unk'] >= 0:
        kids.append(_unk(a['unk']))
    return Node(2010, 0, a['num'], children=kids, name='c_array'), info


def realize(run):
    try:
        return _realize(run)
    except (KeyError, TypeError, ValueError, IndexError, AssertionError, struct.error) as e:
        raise BadPlan('%r' % (e,))


def _realize(run):
    tels, sc = run['tels'], run['sc']
    if not tels or len(set(tels)) < len(tels) or not all(0 < t < 1000 for t in tels):
        raise BadPlan('telescopes')
    tops = []

    def add(kind, node, info=None):
        tops.append(Top(kind, node, info))

    def simple(it):
        k = it['k']
        if k == 'hist':
            add('history', Node(70, 0, 0, children=[_b(n, s, sc) for n, s in it['c']], name='c_history'))
        elif k == 'meta':
            add('meta', _b('hist_meta', it['s'], sc, tel=None if it['tel'] < 0 else it['tel']), it['tel'])
        elif k == 's_runh':
            add(k, _b(k, it['s'], sc, tels=tels))
        elif k in ('s_mcrunh', 'i_card', 'i_atm'):
            add(k, _b(k, it['s'], sc))
        elif k in dict(DESCR) or k in MONI:
            if it['tel'] not in tels:
                raise BadPlan('tel')
            add(k, _b(k, it['s'], sc, tel=it['tel']), it['tel'])
        elif k == 'unk':
            add(k, _unk(it['s']))
        else:
            raise BadPlan(k)

    seen = collections.Counter()
    for it in run['head']:
        simple(it)
        seen[it['k']] += 1
        if it['k'] in dict(DESCR):
            seen[it['k'], it['tel']] += 1
    if seen['s_runh'] != 1 or any(seen[k, t] != 1 for k, _ in DESCR for t in tels):
        raise BadPlan('incomplete header')
    n_head = len(tops)
    while tops[n_head - 1].kind not in dict(DESCR):
        n_head -= 1
    if [t.kind for t in tops].index('s_runh') > [t.kind in dict(DESCR) for t in tops].index(True):
        raise BadPlan('order')

    state = 'calib'             # calib -> shower -> use -> done(array seen)
    for it in run['items']:
        k = it['k']
        if state == 'end':
            raise BadPlan('after the end')
        if k == 'calpe':
            if state != 'calib':
                raise BadPlan(k)
            pes = [_unk(s) if t == 0 else _b('i_photons', s, sc, tel=-t, arr=0) if t < 0 else _b('i_pe', s, sc, tel=t, arr=0)
                   for t, s in it['e']]
            td = Node(1204, 0, 0, children=pes, name='c_teldata')
            w = it.get('w')
            if w:
                add(k, Node(2034, 0, 0, children=dict(empty=[], unk=[_unk(7)]).get(w, [_unk(8), td]), name='c_calpe'), None)
                continue
            add(k, Node(2034, 0, 0, children=[td], name='c_calpe'),
                {t: n.expect for (t, _), n in zip(it['e'], pes) if t > 0})
        elif k == 'calib':
            if state != 'calib':
                raise BadPlan(k)
            n, info = _array(it['a'], sc)
            info['ctype'] = it['t']
            add(k, Node(2028, 0, it['t'], children=[n], name='c_calib'), info)
        elif k == 'array':
            n, info = _array(it['a'], sc)
            if state == 'calib':
                add('calarray', n, info)
            elif state == 'use':
                add('array', n, info)
                state = 'done'
            else:
                raise BadPlan('array event without MC event')
        elif k == 'shower':
            add(k, _b('s_shower', it['s'], sc, num=it['num']))
            state = 'shower'
        elif k == 'obspart':
            if state != 'shower' or tops[-1].kind != 'shower':
                raise BadPlan(k)
            add(k, _b('i_photons', it['s'], sc, v=0, particles=True))
        elif k == 'mcevent':
            if state == 'calib':
                raise BadPlan(k)
            add(k, _b('s_mcevent', it['s'], sc, num=it['num'], shower=it['shower']), it['num'])
            state = 'use'
        elif k == 'teldata':
            if state != 'use' or tops[-1].kind != 'mcevent':
                raise BadPlan(k)
            kids, d = [], collections.defaultdict(dict)
            for kk, t, s in it['e']:
                if kk == 'unk':
                    kids.append(_unk(s))
                    continue
                key = dict(i_pe='photoelectrons', i_photons='photons')[kk]
                if t in d.get(key, ()):
                    raise BadPlan('twice')
                n = _b(kk, s, sc, tel=t, arr=0)
                kids.append(n)
                if kk == 'i_pe':
                    d[key][t] = n.expect
                else:
                    d[key][t] = n.expect[0]
                    if n.expect[1] is not None:
                        d['emitter'][t] = n.expect[1]
            add(k, Node(1204, 0, 0, children=kids, name='c_teldata'), dict(d))
        elif k == 'mcpe':
            if state != 'use':
                raise BadPlan(k)
            add(k, _b('s_mcpe', it['s'], sc, num=it['num']))
        elif k == 'histos':
            add(k, _b('histograms', it['s'], sc))
            state = 'end'
        else:
            simple(it)
    if run['x']:
        for i, t in enumerate(tops):
            if i % 3 == 0:
                t.node.extended = True
    nodes = [t.node for t in tops]
    data = enc.encode_file(nodes)
    return tops, n_head, nodes, data


# ------------------------------------------------------------------ reference reader
class Ref:
    def __init__(self):
        self.events, self.ids = [], []
        self.history, self.mc_run_headers, self.cards, self.profiles = [], [], [], []
        self.global_meta, self.tel_meta, self.descr = {}, {}, collections.defaultdict(dict)
        self.header = self.histograms = None
        self.moni = {k: collections.defaultdict(dict) for k in MONI.values()}
        self.unknown = 0
        self.ended = False


def assemble(tops, allowed=None):
    """All events and run-level data held by these (complete) top-level objects."""
    r = Ref()
    cur = shower = particles = calpe = None
    allowed = None if not allowed else set(allowed)

    def finish():
        nonlocal cur
        if cur is not None:
            r.events.append(cur)
        cur = None

    def put_array(ev, a):
        ev['event_id'] = a['tid'] or a['num']
        ev['trigger_information'] = a['trig'].expect
        ev['telescope_events'], ev['tracking_positions'] = {}, {}
        # version 0 of the trigger information does not tell which telescopes have data
        if allowed is None or allowed & set(a['data']) or a['trig'].version == 0:
            sel = lambda d: {t: v for t, v in d.items() if allowed is None or t in allowed}
            ev['telescope_events'], ev['tracking_positions'] = sel(a['tel']), sel(a['track'])
            if a['stereo'] is not None:
                ev['stereo_reconstruction'] = a['stereo']
        for k, m in r.moni.items():
            ev[k] = {t: dict(m[t]) for t in ev['telescope_events']}

    for t in tops:
        k, n = t.kind, t.node
        if k == 'history':
            r.history += [c.expect for c in n.children]
        elif k == 'meta':
            if t.info < 0:
                r.global_meta = n.expect
            else:
                r.tel_meta[t.info] = n.expect
        elif k == 's_runh':
            r.header = n.expect
        elif k == 's_mcrunh':
            r.mc_run_headers.append(n.expect)
        elif k == 'i_card':
            r.cards.append(n.expect)
        elif k == 'i_atm':
            r.profiles.append(n.expect)
        elif k in MONI:
            r.moni[MONI[k]][t.info].update(n.expect)
        elif k == 'unk':
            r.unknown += 1
        elif k == 'calpe':
            if t.info is not None:
                calpe = t.info
        elif k in ('calib', 'calarray'):
            finish()
            cur = dict(type='calibration')
            if k == 'calib':
                cur['calibration_type'] = t.info['ctype']
            put_array(cur, t.info)
            if k == 'calib' and calpe is not None:
                cur['photoelectrons'], calpe = calpe, None
        elif k == 'shower':
            shower, particles = n.expect, None
        elif k == 'obspart':
            particles = n.expect
        elif k == 'mcevent':
            finish()
            cur = dict(type='data', event_id=t.info, mc_shower=shower, mc_event=n.expect)
            if particles is not None:
                cur['observation_level_particles'] = particles
        elif k == 'teldata':
            cur.update(t.info)
        elif k == 'mcpe':
            cur['photoelectron_sums'] = n.expect
        elif k == 'array':
            put_array(cur, t.info)
        elif k == 'histos':
            r.histograms = n.expect
            r.ended = True
            finish()
        else:
            key = dict(DESCR)[k]
            r.descr[t.info][key] = n.expect
    finish()
    return r


def selected(ev, opt):
    if ev['type'] == 'data':
        return not (opt['nt'] and not ev.get('telescope_events'))
    return not opt['cal']
