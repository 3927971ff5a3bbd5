"""The search helpers visit exactly the objects in the file, torn or not."""
import random

from .. import gen, low, objs
from ..core import BadPlan

ID = 'C20'
QUICK, THOROUGH = 12000, 600000
RULE = ('one simulated run = one generated object tree in one container, intact, torn or with a read error, searched with one '
        'helper for one type or structure while the caller reads the delivered objects at once, later, or alternately with other '
        'searches; non-trivial if at least one object is delivered')
REAL = ['eventio.search_utils', 'eventio.base', 'object classes', 'gzip module', 'zstandard']
STUB = ['gzip helper process and its pipe', 'raw file layer (short reads, errors)', 'clock']
ASSUME = ['find_all_subobjects also collects objects of the last type met at an outer level of the structure, as implemented',
          'when no object of the requested type is left in an intact file, find_type raises StopIteration or ValueError']
CONT = ['c_array', 'c_array', 'c_tel', 'c_tel', 'c_teldata', 'c_calib', 'c_history', 'c_unk']
HELPERS = ['find_type', 'collect', 'toplevel', 'toplevel', 'find_all', 'find_all', 'yield_all', 'yield_all', 'depth', 'depth', 'sub', 'sub', 'n']
TOLERANT = ('collect', 'toplevel', 'find_all')


def make_tree(rng):
    kinds = [rng.choice(gen.COMMON) for _ in range(rng.randint(1, 4))]

    def one(depth):
        r = rng.random()
        if depth and r < 0.45:
            sp = gen.cont_spec(rng, 0, width=0)
            k = rng.choice(CONT)
            sp = dict(sp, k=k, c=[one(depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))])
            sp.pop('tel', None), sp.pop('t', None)
            if k == 'c_tel':
                sp['tel'] = rng.choice([1, 2, 40, 118])
            if k == 'c_unk':
                sp['t'] = rng.choice(gen.RAW_TYPES)
            return sp
        if r < 0.9:
            return gen.rec_spec(rng, rng.choice(kinds))
        return gen.raw_spec(rng)
    depth = rng.choice([0, 1, 2, 2, 3, 4])
    return [one(depth) for _ in range(rng.randint(1, 8))]


def make(rng, idx, tier):
    fault = rng.choice(['none', 'none', 'cut', 'cut', 'eio'])
    plan = dict(tree=make_tree(rng), fault=fault, io=gen.io_spec(rng), helper=rng.choice(HELPERS), pick=rng.randint(0, 10**6),
                any=int(rng.random() < 0.15), absent=int(rng.random() < 0.08), use=rng.choice(['no', 'now', 'now', 'later', 'both']),
                stop=rng.choice([None, None, None, 1, 2, 5]), n=rng.choice([0, 1, 2, 3, 3, 5, 50]), root=rng.choice([None, None, rng.randint(0, 10**6)]),
                mix=int(rng.random() < 0.25), seed=rng.randint(0, 10**9), peek=rng.choice([0, 0, 0, 1, 1, 2]))
    plan['st'] = gen.storage_spec(rng, ('plain',) if fault == 'eio' or plan['mix'] else ('plain', 'plain', 'gz', 'gz', 'zst', 'gzpy'))
    if fault == 'cut':
        plan['cut'] = gen.cut_spec(rng)
    if fault == 'eio':
        plan['eio'] = [rng.choice(['EIO', 'EIO', 'seekEIO', 'KI']), rng.choice([0, 1, 2, 3, 5, rng.randint(0, 60)])]
        plan['io']['buf'] = rng.choice([1, 16, 64, 512])
    return plan


def class_name(node):
    if node.cls:
        # RunHeader exists for CORSIKA and for sim_telarray files
        return 'iact.' + node.cls if 1200 <= node.type < 1300 else node.cls
    if node.name in objs.CONTAINERS and objs.CONTAINERS[node.name][1]:
        return objs.CONTAINERS[node.name][1]
    return 'EventIOObject'


def cls_of(name):
    import eventio
    import eventio.iact
    import eventio.histograms
    import eventio.simtel
    from eventio.simtel import objects as so
    from eventio.iact import objects as io
    if name.startswith('iact.'):
        name = name[5:]
        if hasattr(io, name):
            return getattr(io, name)
    for m in (so, io, eventio.histograms, eventio.base):
        if hasattr(m, name):
            return getattr(m, name)
    raise BadPlan('no class %s' % name)


def matches(node, name):
    return name == 'EventIOObject' or class_name(node) == name


def flat(nodes, level=0):
    for n in nodes:
        yield n, level
        if n.children is not None:
            yield from flat(n.children, level + 1)


class Stop(Exception):
    pass


def search_sub(nodes, name):
    for n in nodes:
        if matches(n, name):
            yield n
        elif n.children is not None:
            yield from search_sub(n.children, name)


def search_structure(nodes, names, level=0):
    for n in nodes:
        if matches(n, names[-1]):
            yield n
        elif matches(n, names[level]):
            yield from search_structure(n.children, names, level + 1)


def look_sub(nodes, name):
    for n in nodes:
        yield n
        if not matches(n, name) and n.children is not None:
            yield from look_sub(n.children, name)


def look_structure(nodes, names, level=0):
    for n in nodes:
        yield n
        if not matches(n, names[-1]) and matches(n, names[level]):
            yield from look_structure(n.children, names, level + 1)


def paths(nodes, at=()):
    for n in nodes:
        p = at + (n,)
        yield p
        if n.children is not None:
            yield from paths(n.children, p)


def structure(plan, nodes):
    """class names along an existing path; inner ones are containers by their type"""
    ps = [p for p in paths(nodes) if all(class_name(x) != 'EventIOObject' for x in p[:-1])]
    p = ps[plan['pick'] % len(ps)]
    names = [class_name(x) for x in p]
    if plan['absent']:
        names[-1] = 'RunStatistics'
    elif plan['any']:
        names[-1] = 'EventIOObject'
    return names


def target(plan, nodes):
    if plan['absent']:
        return 'RunStatistics'
    if plan['any']:
        return 'EventIOObject'
    fl = [n for n, _ in flat(nodes)]
    return class_name(fl[plan['pick'] % len(fl)])


class Search:
    """one helper call on one root (file or container) together with its expected deliveries"""

    def __init__(self, ctx, plan, root, nodes, is_file, t, data, root_node=None):
        from eventio import search_utils as su
        self.ctx, self.plan, self.nodes, self.t, self.data = ctx, plan, nodes, t, data
        self.is_file, self.root = is_file, root
        h = self.h = plan['helper']
        self.levels, self.root_node = None, root_node
        everything = [root_node] if root_node is not None else nodes
        if h in ('find_all', 'yield_all'):
            names = self.names = structure(plan, nodes)
            cls = [cls_of(n) for n in names]
            self.want = list(search_structure(nodes, names))
            self.what = '%s(%s)' % (h, '/'.join(names))
            self.make = (lambda: iter(su.find_all_subobjects(root, cls))) if h == 'find_all' else (
                lambda: su.yield_all_subobjects(root, cls))
        elif h == 'depth':
            self.want = [n for n, _ in flat(nodes)]
            self.levels = [lv for _, lv in flat(nodes)]
            self.what = 'yield_all_objects_depth_first'
            self.make = lambda: su.yield_all_objects_depth_first(root)
        elif h in ('sub', 'n'):
            name = self.name = target(plan, nodes)
            c = cls_of(name)
            self.want = list(search_sub(everything, name))
            self.what = '%s(%s)' % (h, name)
            if h == 'sub':
                self.make = lambda: su.yield_subobjects(root, c)
            else:
                self.want = self.want[:plan['n']]
                self.what = 'yield_n_subobjects(%s, %d)' % (name, plan['n'])
                self.make = lambda: su.yield_n_subobjects(root, c, plan['n']) if plan['n'] != 3 else su.yield_n_subobjects(root, c)
        else:
            name = self.name = target(plan, nodes)
            c = cls_of(name)
            self.want = [n for n in nodes if matches(n, name)]
            self.what = '%s(%s)' % (h, name)
            if h == 'find_type':
                self.make = lambda: finder(su.find_type, root, c)
            elif h == 'collect':
                self.make = lambda: iter(su.collect_toplevel_of_type(root, c))
            else:
                self.make = lambda: su.yield_toplevel_of_type(root, c)
        limit = len(t.content)
        self.all = [n for n, _ in flat(nodes)]
        if is_file:
            self.torn = not t.complete or limit not in [0] + [n.end for n in nodes]
        else:
            # a search in a container only looks at headers inside it
            self.torn = any(n.addr + min(n.fixed, n.size) > t.low for n in self.looked())
        self.sure = [n for n in self.want if n.addr + min(n.fixed, n.size) <= t.low]
        self.can = [n for n in self.want if n.addr + min(n.fixed, n.size) <= limit]
        full_n = h == 'n' and len(self.can) == plan['n']
        # every object that the search has to look at is there
        self.complete = (not self.torn) or full_n
        if not is_file and not any(n.addr + min(n.fixed, n.size) > limit for n in self.looked()):
            self.complete = True
        self.got = []
        self.it = None

    def looked(self):
        """objects whose header the search has to read"""
        if self.h == 'depth':
            return self.all
        if self.h in ('find_all', 'yield_all'):
            return list(look_structure(self.nodes, self.names))
        return list(look_sub(self.nodes, self.name)) if self.want[:1] != [self.root_node] else []

    def step(self):
        """next delivery -> object or None at the end"""
        ctx = self.ctx
        if self.it is None:
            r = ctx.call(self.make)
            if r[0] != 'ok':
                return self.end(r)
            self.it = r[1]
        r = ctx.call(next, self.it)
        if r[0] != 'ok':
            return self.end(r)
        v = r[1]
        i = len(self.got)
        if i >= len(self.can):
            ctx.fail('extra', '%s delivers item %d: %r, stored (and surviving) are %d' % (self.what, i, v, len(self.can)))
        if self.levels is not None:
            o, lv = v
            if lv != self.levels[i]:
                ctx.fail('level', '%s reports level %r for object %d, stored at level %d' % (self.what, lv, i, self.levels[i]))
        else:
            o = v
        low.check_header(ctx, o, self.can[i], '%s item %d' % (self.what, i))
        name = class_name(self.can[i])
        if type(o) is not cls_of(name):
            ctx.fail('class', '%s item %d is a %s, stored is type %d (%s)' % (
                self.what, i, type(o).__name__, self.can[i].type, name))
        self.got.append(o)
        ctx.probe('delivered by ' + self.h)
        return o

    def end(self, r):
        ctx, n = self.ctx, len(self.got)
        self.ended = r
        if r[0] not in ('StopIteration', 'EOFError', 'ValueError') and self.faulted(r):
            ctx.probe('read error reported')
            return None
        if n < len(self.sure):
            ctx.fail('lost', '%s delivers %d of %d surviving objects, then %s: %s' % (self.what, n, len(self.sure), r[0], r[1]))
        if self.plan.get('fired') and self.h != 'n':
            ctx.fail('swallowed', '%s: an injected %s on a read ended in %s: %s' % (self.what, self.plan['eio'][0], r[0], r[1]))
        if not self.torn:
            if r[0] != 'StopIteration' and not (self.h == 'find_type' and r[0] == 'ValueError'):
                ctx.fail('end', '%s on intact data ends with %s: %s' % (self.what, r[0], r[1]))
            if self.is_file and self.warned():
                ctx.fail('warned', '%s warns about a truncation of intact data' % self.what)
        elif self.h == 'n' and n == self.plan['n'] and n and r[0] != 'StopIteration':
            ctx.fail('end', '%s has delivered all %d objects that were asked for and ends with %s: %s' % (self.what, n, r[0], r[1]))
        elif self.complete and (self.h != 'n' or n == len(self.can) or not self.is_file):
            if r[0] not in self.t.eof + ('StopIteration',):
                ctx.fail('end', '%s ends with %s: %s' % (self.what, r[0], r[1]))
        elif self.h in TOLERANT:
            if r[0] == 'StopIteration' and not self.warned():
                ctx.fail('silent', '%s on torn data (%d bytes of %d) ends silently after %d objects' % (
                    self.what, len(self.t.content), len(self.data), n))
            if r[0] != 'StopIteration' and (self.t.eof == ('EOFError',) or r[0] not in self.t.eof):
                ctx.fail('end', '%s on torn data ends with %s: %s' % (self.what, r[0], r[1]))
        elif r[0] not in self.t.eof:
            ctx.fail('silent' if r[0] == 'StopIteration' else 'end', '%s on torn data (%d bytes of %d) ends with %s: %s' % (
                self.what, len(self.t.content), len(self.data), r[0], r[1]))
        return None

    def warned(self):
        return any('trunc' in str(w.message) and 'during peek' not in str(w.message) for w in self.ctx.warnings)

    def faulted(self, r):
        return self.plan.get('fired') and (r[0] == 'KeyboardInterrupt' or isinstance(r[1], OSError))


def finder(find_type, f, c):
    while True:
        try:
            o = find_type(f, c)
        except StopIteration:
            return
        yield o


def use(ctx, o, node, t, seekable, s, iterate):
    """the delivered object holds what was stored"""
    if node.children is not None:
        if seekable and iterate and node.end <= t.low:
            low.walk(ctx, o, node.children, t.content, random.Random(str(s)), 'delivered container')
        return
    if not seekable:
        if node.end <= t.low:
            low.read_some(ctx, o, node, t.content, random.Random(str(s)), 'delivered object')
        return
    r = ctx.call(lambda: (o.seek(0), o.read())[1])
    if node.end <= t.low:
        if r[0] != 'ok' or bytes(r[1]) != low.payload_of(t.content, node):
            ctx.fail('payload', 'delivered object type %d at %d: %s, stored %d bytes' % (
                node.type, node.addr, 'other bytes' if r[0] == 'ok' else '%s: %s' % r, node.size))
    elif node.end > len(t.content) and r[0] not in t.eof:
        ctx.fail('payload', 'payload of a torn object: %s' % r[0])


def execute(plan, ctx):
    nodes, data = gen.realize_file(plan['tree'])
    if not nodes:
        raise BadPlan('empty')
    plan.pop('fired', None)
    st = plan['st']
    if plan['fault'] == 'cut':
        t = gen.torn(data, nodes, st, plan['cut'])
        ctx.stats['fault:cut'] += len(t.content) < len(data)
    else:
        t = gen.Torn(gen.store(data, st), data, len(data), True)
    path = ctx.write('f' + gen.SUFFIX[st['fmt']], t.stored)
    seekable = st['fmt'] in ('plain', 'gzpy')
    ctx.key += [plan['tree'], st, plan['helper'], plan['pick'], plan['any'], plan['absent'], plan['use'], len(t.stored)]
    rng = random.Random('use/%s' % plan['seed'])
    with ctx.open_world(plan['io']) as w:
        f = low.open_torn(ctx, path, st, t)
        if f is None:
            return
        if plan['mix'] and seekable:
            return mixed(plan, ctx, f, nodes, t, data, rng)
        root, rn, is_file, here = f, nodes, True, None
        conts = [i for i, n in enumerate(nodes) if n.children is not None and n.addr <= t.low]
        if plan['root'] is not None and conts and plan['helper'] not in ('find_type', 'collect', 'toplevel'):
            i = conts[plan['root'] % len(conts)]
            for _ in range(i + 1):
                root = next(f)
            rn, is_file, here = nodes[i].children, False, nodes[i]
            if not rn:
                return
        s = Search(ctx, plan, root, rn, is_file, t, data, here)
        if plan['fault'] == 'eio':
            w.arm(*plan['eio'])
        k = 0
        while True:
            if plan['fault'] == 'eio' and w.armed is None:
                plan['fired'] = 1
            peek(plan, ctx, f, seekable, is_file, k)
            o = step(plan, ctx, s)
            if o is None:
                break
            k += 1
            ctx.nontrivial = True
            if plan['use'] in ('now', 'both') and plan['fault'] != 'eio' and s.h not in ('find_all', 'collect'):
                use(ctx, o, s.can[len(s.got) - 1], t, seekable, (plan['seed'], k), s.h != 'depth')
            if k == plan['stop'] and s.it is not None and s.h not in ('find_all', 'collect') and plan['fault'] == 'none' and is_file:
                return abandon(plan, ctx, f, s, nodes)
        w.armed = None
        if plan['use'] in ('later', 'both') and seekable:
            order = list(range(len(s.got)))
            rng.shuffle(order)
            for i in order:
                use(ctx, s.got[i], s.can[i], t, True, (plan['seed'], i), s.h != 'depth' and plan['use'] == 'later')
        ctx.log(s.what, 'delivered', len(s.got), 'of', len(s.want), 'then', s.ended[0])
        f.close()


def peek(plan, ctx, f, seekable, is_file, k):
    """looking at what comes next takes nothing away from a search (1: before it starts, 2: at any time)"""
    if plan['fault'] == 'eio' or not plan.get('peek') or k and (plan['peek'] == 1 or not seekable) or not (seekable or is_file):
        return
    r = ctx.call(f.peek)
    if r[0] != 'ok':
        ctx.fail('peek', 'peek: %s: %s' % r)
    ctx.probe('peeks')


def step(plan, ctx, s):
    w = ctx.world
    if plan['fault'] != 'eio' or plan.get('fired'):
        return s.step()
    # the fault may fire inside this step
    orig = s.end

    def end(r):
        if w.armed is None:
            plan['fired'] = 1
        return orig(r)
    s.end = end
    o = s.step()
    s.end = orig
    if o is not None and w.armed is None:
        ctx.fail('swallowed', '%s: an injected %s on a read was followed by a delivery' % (s.what, plan['eio'][0]))
    return o


def abandon(plan, ctx, f, s, nodes):
    """a search that is not continued has not moved beyond the top-level object it was in"""
    last = s.can[len(s.got) - 1]
    s.it = None
    i = next(i for i, n in enumerate(nodes) if n.hdr_start <= last.hdr_start < max(n.end, n.hdr_start + 1))
    for j in range(i + 1, len(nodes)):
        r = ctx.call(next, f)
        if r[0] != 'ok':
            ctx.fail('skipped', 'after an abandoned %s: %s instead of top-level object %d' % (s.what, r[0], j))
        low.check_header(ctx, r[1], nodes[j], 'after an abandoned %s: object %d' % (s.what, j))
    ctx.probe('search abandoned')
    f.close()


def mixed(plan, ctx, f, nodes, t, data, rng):
    """searches in several containers of one file advance alternately"""
    limit = len(t.content)
    conts = []
    for n in low.survivors(nodes, limit):
        o = next(f)
        if n.children and len(conts) < 4:
            conts.append((o, n))
    ss = []
    for o, n in conts:
        p = dict(plan, helper=rng.choice(['find_all', 'yield_all', 'depth', 'sub']), pick=rng.randint(0, 10**6))
        ss.append([Search(ctx, p, o, n.children, False, t, data, n), None, 0])
    if len(ss) > 1:
        ctx.probe('alternating searches')
        ctx.nontrivial = True
    live = list(ss)
    while live:
        x = rng.choice(live)
        for _ in range(rng.choice([1, 1, 2, 5])):
            o = x[0].step()
            if o is None:
                live.remove(x)
                break
            if plan['use'] != 'no' and rng.random() < 0.5:
                s = x[0]
                use(ctx, o, s.can[len(s.got) - 1], t, True, rng.random(), s.h != 'depth')
    ctx.log('mixed', [len(x[0].got) for x in ss])
    f.close()
