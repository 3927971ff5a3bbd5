"""Run context, violations, and plan minimisation shared by all properties."""
import collections
import copy
import functools
import gc
import hashlib
import json
import logging
import os
import random
import sys
import types
import warnings

from . import world as W


class Violation(Exception):
    def __init__(self, cls, msg, finding=None):
        super().__init__(cls, msg)
        self.cls, self.msg, self.finding = cls, msg, finding


class BadPlan(Exception):
    """a (minimised) plan that no longer describes a meaningful run"""


@functools.lru_cache
def known_findings():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    with W.real_open(p) as f:
        return {(e['property'], e['id']) for e in json.load(f) if e['kind'] == 'finding'}


class Ctx:
    def __init__(self, scratch):
        self.dir = scratch
        self.trace = []
        self.stats = collections.Counter()
        self.key = []               # what makes this run distinct
        self.nontrivial = False
        self.world = None
        self.sim_time = 0.0
        self.known = []
        self.warnings = []

    def log(self, *a):
        self.trace.append(' '.join(str(x) for x in a))

    def digest(self):
        return hashlib.sha256('\n'.join(self.trace).encode('utf8', 'replace')).hexdigest()[:20]

    def probe(self, name, n=1):
        self.stats['probe:' + name] += n

    def fail(self, cls, msg, finding=None):
        raise Violation(cls, msg, finding)

    def finding(self, prop, id, cls, msg):
        """a violation with the signature of a listed finding is counted, any other one raised"""
        if (prop, id) in known_findings():
            self.known.append(id)
            self.log('known finding', id)
            return
        raise Violation(cls, msg)

    def path(self, name='f.dat'):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        with W.real_open(p, 'wb') as f:
            f.write(data)
        return p

    def open_world(self, plan_io, budget=400000):
        w = W.World(plan_io, budget)
        self.world = w
        return W.running(w)

    def close_world(self):
        w = self.world
        if w is None:
            return
        for k, v in w.counts.items():
            self.stats[k] += v
        self.stats['steps'] += w.steps
        self.sim_time += w.clock
        for p in w.procs:
            if hasattr(p, '_h'):
                self.key.append(p._h.produced)
        self.key.append(hashlib.sha256(repr((w.sched, w.counts)).encode()).hexdigest()[:12])
        self.world = None

    def call(self, fn, *a, **k):
        """Run code under test: ('ok', value) or (exception name, exception)."""
        try:
            return 'ok', fn(*a, **k)
        except (W.SimHang, SystemExit):
            raise
        except KeyboardInterrupt as e:
            if 'simulated' not in str(e):
                raise
            return 'KeyboardInterrupt', e
        except (GeneratorExit,):
            raise
        except BaseException as e:
            if isinstance(e, (BadPlan, Violation)):
                raise
            # frames keep readers alive; drop them so that resource checks see the program's own references
            e.__traceback__ = None
            c = e.__context__
            while c is not None:
                c.__traceback__ = None
                c = c.__context__
            return type(e).__name__, e


def _program_frame(e):
    tb, where = e.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/eventio/' in fn:
            where = '%s in %s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


def clear_caches():
    """Every run starts from the state a fresh process would have."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith('eventio') or mod is None:
            continue
        for obj in list(vars(mod).values()):
            if hasattr(obj, 'cache_clear'):
                obj.cache_clear()
            if isinstance(obj, type):
                for o in list(vars(obj).values()):
                    o = getattr(o, '__func__', o)
                    if hasattr(o, 'cache_clear'):
                        o.cache_clear()


def execute(mod, plan, scratch):
    """Execute one plan. Returns (ctx, violation-or-None). Raises on harness errors."""
    ctx = Ctx(scratch)
    for n in os.listdir(scratch):
        os.unlink(os.path.join(scratch, n))
    clear_caches()
    logging.getLogger('eventio').handlers = [logging.NullHandler()]
    logging.getLogger('eventio').propagate = False
    v = None
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        ctx.warnings = rec
        try:
            mod.execute(plan, ctx)
        except Violation as e:
            v = e
        except W.SimHang as e:
            v = Violation('hang', 'never makes progress: %s' % e)
        except BadPlan:
            raise
        except BaseException as e:
            # an error that comes out of the program where the run did not expect one
            where = _program_frame(e)
            if where is None:
                raise
            v = Violation('unexpected-error', '%s: %s (from %s)' % (type(e).__name__, str(e)[:300], where))
        finally:
            W.CURRENT = None
            ctx.close_world()
    if v is not None:
        ctx.log('VIOLATION', v.cls, v.msg)
    return ctx, v


def result_of(mod, plan, scratch):
    ctx, v = execute(mod, plan, scratch)
    return dict(
        ok=v is None, cls=v.cls if v else None, msg=v.msg if v else None, finding=v.finding if v else None,
        digest=ctx.digest(), stats=dict(ctx.stats), sim_time=ctx.sim_time,
        key=hashlib.sha256(repr(ctx.key).encode()).hexdigest()[:16], nontrivial=ctx.nontrivial,
        known=ctx.known, trace=ctx.trace[-400:] if v is not None else ctx.trace[-30:])


def seed_of(base, prop, idx):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (base, prop, idx)).encode()).digest()[:6], 'big')


def make_plan(mod, base, idx, tier):
    seed = seed_of(base, mod.ID, idx)
    plan = mod.make(random.Random(seed), idx, tier)
    plan['_seed'] = seed
    return json.loads(json.dumps(plan))      # exactly what a replay file would contain


# ------------------------------------------------------------------ minimisation
def _paths(x, at=()):
    """positions of all lists and scalars, outer first"""
    if isinstance(x, dict):
        for k in sorted(x):
            if k.startswith('_'):
                continue
            yield from _paths(x[k], at + (k,))
    elif isinstance(x, list):
        yield at, 'list'
        for i, v in enumerate(x):
            yield from _paths(v, at + (i,))
    elif isinstance(x, bool):
        yield at, 'bool'
    elif isinstance(x, int):
        yield at, 'int'
    elif isinstance(x, float):
        yield at, 'float'


def _get(x, at):
    for k in at:
        x = x[k]
    return x


def _set(x, at, v):
    y = copy.deepcopy(x)
    t = y
    for k in at[:-1]:
        t = t[k]
    t[at[-1]] = v
    return y


def shrink(plan, test, budget):
    """Greedy minimisation; `test(plan)` is True while the same violation persists."""
    tried = 0
    improved = True
    while improved and tried < budget:
        improved = False
        # remove list chunks
        for at, kind in list(_paths(plan)):
            if kind != 'list':
                continue
            try:
                lst = _get(plan, at)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1 and tried < budget:
                i = 0
                while i < len(lst) and tried < budget:
                    cand = _set(plan, at, lst[:i] + lst[i + size:])
                    tried += 1
                    if test(cand):
                        plan, lst, improved = cand, _get(cand, at), True
                    else:
                        i += size
                size //= 2
        # simplify scalars
        for at, kind in list(_paths(plan)):
            if tried >= budget:
                break
            try:
                v = _get(plan, at)
            except (KeyError, IndexError, TypeError):
                continue
            if kind == 'bool' and v is True:
                cands = [False]
            elif kind == 'int' and v not in (0,) and not isinstance(v, bool):
                cands = [0, 1] + ([v // 2, v - 1] if v > 1 else [])
            elif kind == 'float' and v:
                cands = [0.0]
            else:
                continue
            for c in cands:
                if c == v or tried >= budget:
                    continue
                cand = _set(plan, at, c)
                tried += 1
                if test(cand):
                    plan, improved = cand, True
                    break
    return plan, tried
