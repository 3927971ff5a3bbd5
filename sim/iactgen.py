"""Simulated CORSIKA/IACT runs: plans, stored bytes, and the events a reader must deliver."""
import struct

import numpy as np

from . import enc, gen, objs
from .core import BadPlan
from .enc import Node
from .simtelgen import S, Top, _b

CV = objs.CORSIKA_VERSIONS


# ------------------------------------------------------------------ plans
def run_spec(rng):
    nt = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < 0.04:
        # more than there are three-digit numbers for
        nt = rng.choice([1000, 1001, 1024, 2002])
    showers, num = [], rng.randint(1, 1000)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        showers.append(shower_spec(rng, num, nt))
        num += rng.randint(1, 5)
    return dict(nt=nt, s=S(rng), atm=S(rng) if rng.random() < 0.5 else -1, cv=rng.randint(0, len(CV) - 1),
                split=int(rng.random() < 0.35), sh=showers, sc=rng.choice([0, 1, 1, 2]), x=int(rng.random() < 0.2))


def shower_spec(rng, num, nt):
    uses = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if nt > 100:
            t = rng.randrange(nt)
            tels = sorted({t, t % 1000, nt - 1, (t + 1000) % nt, rng.randrange(nt)} - {999})
        else:
            tels = [t for t in range(nt) if rng.random() < 0.85]
        uses.append([photons_spec(rng, t) for t in tels])
    return dict(num=num, s=S(rng), off=rng.choice([0, 1]), lon=S(rng) if rng.random() < 0.5 else -1,
                par=S(rng) if rng.random() < 0.4 else -1, order=int(rng.random() < 0.5), uses=uses)


def photons_spec(rng, tel, big=False):
    n = rng.choice([0, 1, rng.randint(0, 8), rng.randint(0, 40)] + ([rng.randint(100, 5000)] if big else []))
    return dict(t=tel, n=n, v=rng.choice([0, 1000]), s=S(rng), em=int(rng.random() < 0.35))


def photons_node(p, arr, sc=1, particles=False):
    if not (0 <= p['t'] < 32768 and 0 <= p['n'] <= 10**5):
        raise BadPlan('photons')
    return objs.build('i_photons', p['s'], p['v'], sc, tel=p['t'], arr=arr, n=p['n'], emitter=bool(p['em']))


# ------------------------------------------------------------------ bytes
def realize(run):
    try:
        return _realize(run)
    except (KeyError, TypeError, ValueError, IndexError, AssertionError, struct.error) as e:
        raise BadPlan('%r' % (e,))


def _realize(run):
    sc, nt, s = run['sc'], run['nt'], run['s']
    cv = CV[run['cv']]
    if not 0 < nt < 4000:
        raise BadPlan('telescopes')
    tops = [Top('runh', _b('i_runh', s, sc, cv=cv)), Top('card', _b('i_card', s, sc))]
    if run['atm'] >= 0:
        tops.append(Top('atm', _b('i_atm', run['atm'], sc)))
    tops.append(Top('teldef', _b('i_teldef', s, sc, n=nt)))
    n_head = len(tops)
    add = lambda k, n, info=None: tops.append(Top(k, n, info))
    for j, sh in enumerate(run['sh']):
        if not sh['uses'] or not 0 <= sh['num'] < 1 << 20:
            raise BadPlan('uses')
        add('evth', _b('i_evth', sh['s'], sc, cv=cv, num=sh['num']), j)
        add('arroff', _b('i_arroff', sh['s'], sc, v=sh['off'], n=len(sh['uses'])), j)
        opt = []
        if sh['lon'] >= 0:
            opt.append(('lon', _b('i_long', sh['lon'], sc, num=sh['num'])))
        if sh['par'] >= 0:
            opt.append(('par', _b('i_photons', sh['par'], sc, v=0, particles=True)))
        for k, n in (opt[::-1] if sh['order'] else opt):
            add(k, n, j)
        for u, ps in enumerate(sh['uses']):
            if len({p['t'] for p in ps}) < len(ps):
                raise BadPlan('telescope twice')
            nodes = [photons_node(p, u, sc) for p in ps]
            info = (j, u, list(zip([p['t'] for p in ps], nodes)))
            if run['split']:
                add('ahead', _b('i_ahead', sh['s'] + u, sc), (j, u, []))
                for p, n in zip(ps, nodes):
                    add('photons', n, (j, u, [(p['t'], n)]))
                add('aend', _b('i_aend', sh['s'] + u, sc), (j, u))
            else:
                add('teldata', Node(1204, 0, sh['num'] * 100 + u, children=nodes, name='c_teldata'), info)
        add('evte', _b('i_evte', sh['s'], sc, cv=cv, num=sh['num']), j)
    add('rune', _b('i_rune', s, sc))
    if run['x']:
        for i, t in enumerate(tops):
            if i % 3 == 0:
                t.node.extended = True
    nodes = [t.node for t in tops]
    return tops, n_head, nodes, enc.encode_file(nodes)


# ------------------------------------------------------------------ reference reader
class Ref:
    def __init__(self):
        self.events = []
        self.header = self.input_card = self.profile = self.n_telescopes = self.positions = self.run_end = None


def assemble(tops):
    r = Ref()
    cur = None
    for t in tops:
        k, n = t.kind, t.node
        if k == 'runh':
            r.header = n.expect
        elif k == 'card':
            r.input_card = n.expect
        elif k == 'atm':
            r.profile = n.expect
        elif k == 'teldef':
            r.n_telescopes, r.positions = n.meta, n.expect
        elif k == 'evth':
            cur = dict(header=n.expect, num=n.id, lon=None, par=None, uses={})
        elif k == 'arroff':
            cur['off'] = n.meta
        elif k in ('lon', 'par'):
            cur[k] = n.expect
        elif k in ('teldata', 'ahead', 'photons'):
            j, u, ps = t.info
            cur['uses'].setdefault(u, []).extend(ps)
        elif k == 'evte':
            time_offset, a = cur['off']
            for u in range(a.shape[1]):
                ps = cur['uses'].get(u, [])
                r.events.append(dict(
                    header=cur['header'], event_number=cur['num'], time_offset=time_offset,
                    impact_x=-a[0, u], impact_y=-a[1, u], reuse_weight=a[2, u] if len(a) == 3 else 1.0, reuse=u + 1,
                    photon_bunches={tel: p.expect[0] for tel, p in ps}, emitter={tel: p.expect[1] for tel, p in ps},
                    n_photons={tel: np.float32(p.meta['n_photons']) for tel, p in ps},
                    n_bunches={tel: p.meta['n'] for tel, p in ps},
                    longitudinal=cur['lon'], particles=cur['par'], end=n.expect))
        elif k == 'rune':
            r.run_end = n.expect
    return r
