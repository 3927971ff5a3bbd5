"""Command line: check / replay / digest / gen.

    python -m sim.run check C01 [--tier quick|thorough]
    python -m sim.run replay FILE
    python -m sim.run digest C01 0,5,9
"""
import argparse
import collections
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess as real_subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
_mono = time.monotonic
_Popen = real_subprocess.Popen
PY = sys.executable


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix='sim_', dir=d)
            except OSError:
                continue
    raise SystemExit(2)


class Harness:
    """One process tree: imports the tree under test once, forks once per simulated run."""

    def __init__(self, prop):
        from . import boot
        root = os.environ.get('SIM_IMPORT_ROOT')
        self.build_dir = None
        if not root:
            root, self.build_dir = boot.prepare()
            os.environ['SIM_IMPORT_ROOT'] = root
        self.root = root
        self.base = scratch_base()
        self.dir = os.path.join(self.base, 'w')
        os.mkdir(self.dir)
        from . import world
        self.world = world
        os.environ['MPLBACKEND'] = 'Agg'
        world.install(self.base)
        self.owner = os.getpid()
        boot.import_eventio(root)
        self.mod = importlib.import_module('sim.props.' + prop)
        from . import core
        self.core = core
        gc.collect()
        gc.freeze()

    def close(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.base, ignore_errors=True)
            if self.build_dir:
                shutil.rmtree(self.build_dir, ignore_errors=True)

    def once(self, plan, dirname=None, wall=90.0, trace_budget=None):
        """Execute one plan in a forked child; crash and hang of the child are results."""
        d = dirname or self.dir
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rfd)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (8 << 30, hard))
                except (ValueError, OSError):
                    pass
                devnull = os.open('/dev/null', os.O_RDWR)
                os.dup2(devnull, 2)
                if trace_budget:
                    install_line_budget(trace_budget, self.root)
                try:
                    res = self.core.result_of(self.mod, plan, d)
                    sys.settrace(None)
                except self.core.BadPlan as e:
                    res = dict(bad=str(e))
                except BaseException:
                    sys.settrace(None)
                    res = dict(error=traceback.format_exc()[-6000:])
                out = json.dumps(res, default=repr).encode()
                while out:
                    out = out[os.write(wfd, out):]
                code = 0
            finally:
                os._exit(code)
        os.close(wfd)
        buf = b''
        deadline = _mono() + wall
        timed_out = False
        try:
            while True:
                left = deadline - _mono()
                if left <= 0:
                    timed_out = True
                    break
                r, _, _ = select.select([rfd], [], [], min(left, 5))
                if r:
                    d_ = os.read(rfd, 1 << 20)
                    if not d_:
                        break
                    buf += d_
        finally:
            os.close(rfd)
            if timed_out:
                self_kill(pid, signal.SIGKILL)
            _, status = os.waitpid(pid, 0)
        if timed_out:
            return dict(timeout=True)
        if os.WIFSIGNALED(status):
            return dict(signal=os.WTERMSIG(status))
        try:
            return json.loads(buf)
        except ValueError:
            return dict(error='child exited with %r and no result' % status)

    def judge(self, plan, dirname=None):
        """once() with crash/hang turned into confirmed violations (or harness errors)."""
        res = self.once(plan, dirname)
        if res.get('timeout'):
            r2 = self.once(plan, dirname, wall=200, trace_budget=4000000)
            if r2.get('timeout'):
                return dict(ok=False, cls='hang', msg='run does not terminate (confirmed by a second, longer run)',
                            digest='hang', stats={}, sim_time=0, key='hang', nontrivial=True, known=[], trace=[])
            return r2
        if res.get('signal'):
            r2 = self.once(plan, dirname)
            sig = r2.get('signal')
            if sig and sig != signal.SIGKILL:
                return dict(ok=False, cls='crash', msg='process dies with signal %d' % sig, digest='crash',
                            stats={}, sim_time=0, key='crash', nontrivial=True, known=[], trace=[])
            if sig == signal.SIGKILL:
                return dict(error='child was killed (memory?)')
            return r2
        return res


def self_kill(pid, sig):
    from . import world
    world.real_kill(pid, sig)


def install_line_budget(budget, root):
    from . import world
    left = [budget]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] <= 0:
                raise world.SimHang('line budget exceeded in %s:%d' % (
                    os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local
        return None
    sys.settrace(tracer)


def worker(h, w, n_workers, indices, seed, tier, out_fd, stop_at):
    """Runs in a forked worker: every n-th index; writes one JSON line per run."""
    d = os.path.join(h.base, 'w%d' % w)
    os.mkdir(d)
    # the simulated file system root of this worker
    h.world.SCRATCH = os.path.realpath(d)
    sub = os.path.join(d, 'r')
    os.mkdir(sub)
    for k, idx in enumerate(indices):
        if k % n_workers != w:
            continue
        if _mono() > stop_at:
            break
        try:
            plan = h.core.make_plan(h.mod, seed, idx, tier)
            res = h.judge(plan, sub)
        except BaseException:
            res = dict(error=traceback.format_exc()[-6000:])
        res['idx'] = idx
        if res.get('ok'):
            res.pop('trace', None)
        line = json.dumps(res, default=repr).encode() + b'\n'
        while line:
            line = line[os.write(out_fd, line):]
        if res.get('error'):
            break


def run_batch(h, indices, seed, tier, n_workers, wall, stop_on_violation=True):
    fds, pids = {}, []
    stop_at = _mono() + wall
    for w in range(n_workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for other in fds:
                    os.close(other)
                worker(h, w, n_workers, indices, seed, tier, wr, stop_at)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        fds[r] = b''
        pids.append(pid)
    results = []
    grace = None
    while fds:
        r, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in r:
            d = os.read(fd, 1 << 20)
            if not d:
                os.close(fd)
                del fds[fd]
                continue
            *lines, rest = (fds[fd] + d).split(b'\n')
            fds[fd] = rest
            for line in lines:
                res = json.loads(line)
                results.append(res)
                if stop_on_violation and (res.get('ok') is False or res.get('error')) and grace is None:
                    grace = _mono() + 3.0
        if grace is not None and _mono() > grace:
            break
    for p in pids:
        try:
            self_kill(p, signal.SIGKILL)
        except OSError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for fd in list(fds):
        os.close(fd)
    return results


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return [e for e in json.load(f) if e.get('kind') == 'finding']
    except FileNotFoundError:
        return []


def shrink_and_save(h, prop, plan, res, seed, idx, seconds):
    cls = res['cls']
    t0 = _mono()
    sub = os.path.join(h.base, 'shrink')
    os.makedirs(sub, exist_ok=True)
    h.world.SCRATCH = os.path.realpath(h.base)

    def test(p):
        if _mono() - t0 > seconds:
            return False
        r = h.once(p, sub, wall=30)
        if cls == 'crash':
            return bool(r.get('signal')) and r['signal'] != signal.SIGKILL
        if cls == 'hang' and r.get('timeout'):
            return True
        return r.get('ok') is False and r.get('cls') == cls and not r.get('finding')

    small, tried = plan, 0
    if cls != 'hang' or 'confirmed' not in (res.get('msg') or ''):
        small, tried = h.core.shrink(plan, test, 4000)
    final = h.judge(small, sub)
    if final.get('ok') is not False or final.get('cls') != cls:
        small, final = plan, h.judge(plan, sub)
    rep = dict(property=prop, violation=cls, message=final.get('msg') or res['msg'], verif_seed=seed, run_index=idx,
               run_seed=plan.get('_seed'), shrink_steps=tried, plan=small,
               trace=final.get('trace', []))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(VERIF, 'replays', name)
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1, default=repr)
    return path, rep


def fresh(args, extra_env=None, timeout=600):
    env = dict(os.environ, **(extra_env or {}))
    p = _Popen([PY, '-m', 'sim.run'] + args, cwd=VERIF, env=env, stdout=real_subprocess.PIPE,
               stderr=real_subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except real_subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


def check(args):
    prop = args.property
    seed = os.environ.get('VERIF_SEED', '1')
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    t0 = _mono()
    print('check %s tier=%s VERIF_SEED=%s' % (prop, tier, seed), flush=True)
    h = Harness(prop)
    try:
        return check_with(h, args, prop, seed, tier, t0)
    finally:
        h.close()


def check_with(h, args, prop, seed, tier, t0):
    mod = h.mod
    n = args.runs or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    cap = args.wall or (420 if tier == 'quick' else 3 * 3600)
    nw = args.workers
    t1 = _mono()
    results = run_batch(h, range(n), seed, tier, nw, cap)
    wall_runs = _mono() - t1
    errors = [r for r in results if r.get('error')]
    bad = [r for r in results if r.get('bad')]
    viol = sorted((r for r in results if r.get('ok') is False and not r.get('finding')), key=lambda r: r['idx'])
    good = [r for r in results if 'ok' in r]
    if len(bad) > max(3, n // 200):
        errors.append(dict(error='generated plan rejected: %s' % bad[0]['bad']))
    exit_code = 0
    if viol:
        r = viol[0]
        plan = h.core.make_plan(mod, seed, r['idx'], tier)
        print('run %d (seed %s): %s: %s' % (r['idx'], plan['_seed'], r['cls'], r['msg']), flush=True)
        path, rep = shrink_and_save(h, prop, plan, r, seed, r['idx'], 40 if tier == 'quick' else 180)
        rc, out = fresh(['replay', path], {'PYTHONHASHSEED': '123'})
        if rc == 1:
            print('replayed in a fresh process: %s: %s' % (rep['violation'], rep['message']))
        else:
            print('note: replay in a fresh process ended with %s' % rc)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        exit_code = 1
    elif errors:
        print('HARNESS ERROR\n' + errors[0]['error'], flush=True)
        exit_code = 2
    elif len(good) < min(n, 40):
        print('HARNESS ERROR too few runs (%d of %d) finished in time' % (len(good), n))
        exit_code = 2
    # known findings
    found = collections.Counter(k for r in good for k in r.get('known', []))
    for e in load_known():
        if e['property'] == prop:
            print('KNOWN-FINDING: property=%s %s (met in %d of %d runs)' % (
                prop, e['what'], found.get(e['id'], 0), len(good)))
    # determinism sample: other hash seed, other process, one worker
    det = dict(compared=0, mismatches=0)
    if not viol and not errors and good and not args.no_det:
        step = max(1, len(good) // (24 if tier == 'quick' else 200))
        sample = sorted(r['idx'] for r in good)[::step][:24 if tier == 'quick' else 200]
        rc, out = fresh(['digest', prop, ','.join(map(str, sample)), '--tier', tier],
                        {'PYTHONHASHSEED': '77', 'SIM_IMPORT_ROOT': h.root})
        mine = {r['idx']: r['digest'] for r in good}
        for line in (out or '').splitlines():
            if line.startswith('DIGEST '):
                _, i, dg = line.split()
                det['compared'] += 1
                det['mismatches'] += mine[int(i)] != dg
        if det['mismatches']:
            print('note: %d of %d repeated runs differ' % (det['mismatches'], det['compared']))
    write_evidence(h, mod, prop, tier, seed, good, viol, det, wall_runs, _mono() - t0, n)
    keys = {r['key'] for r in good if r.get('nontrivial')}
    print('%s: %d runs, %d distinct non-trivial, %.1f s, %s' % (
        prop, len(good), len(keys), _mono() - t0, 'VIOLATED' if exit_code == 1 else 'ok' if exit_code == 0 else 'error'))
    return exit_code


def write_evidence(h, mod, prop, tier, seed, good, viol, det, wall_runs, wall, n):
    stats = collections.Counter()
    for r in good:
        stats.update(r.get('stats', {}))
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')}
    sched = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('sched:')}
    keys = {r['key'] for r in good if r.get('nontrivial')}
    samples = []
    for r in sorted(good, key=lambda r: r['idx'])[:3]:
        p = h.core.make_plan(mod, seed, r['idx'], tier)
        samples.append(dict(run_index=r['idx'], run_seed=p['_seed'], plan=json.loads(json.dumps(p)[:20000])
                            if len(json.dumps(p)) < 20000 else json.dumps(p)[:4000], event_log_digest=r['digest']))
    ev = dict(
        property=prop, tier=tier, seed=int(seed) if str(seed).isdigit() else 0, level='exploration',
        coverage=dict(
            evaluations=len(good), distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
            planned_runs=n, runs_per_hour=int(len(good) / max(wall_runs, 1e-9) * 3600),
            seeds_per_hour=int(len(good) / max(wall_runs, 1e-9) * 3600),
            simulated_seconds=round(sum(r.get('sim_time', 0) for r in good), 3),
            simulated_io_steps=stats.get('steps', 0),
            faults_fired=faults, scheduling_events=sched, rare_conditions_hit=probes,
            distinct_interleavings=dict(
                count=len({r['key'] for r in good}),
                measure='distinct (operation trace, fault placement, helper progress trace) signatures'),
            determinism=dict(det, how='same run indices in a fresh interpreter, one worker, PYTHONHASHSEED=77; '
                                      'event-log digests compared'),
            components=dict(real=mod.REAL, stub=mod.STUB),
            violations_found=[dict(cls=v['cls'], msg=v['msg'], idx=v['idx']) for v in viol[:5]]),
        assumptions=list(mod.ASSUME), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)


def replay(args):
    with open(args.file) as f:
        rep = json.load(f)
    h = Harness(rep['property'])
    try:
        sub = os.path.join(h.base, 'r')
        os.mkdir(sub)
        res = h.judge(rep['plan'], sub)
    finally:
        h.close()
    for line in res.get('trace', []):
        print('  ', line)
    if res.get('error') or res.get('bad'):
        print('HARNESS ERROR', res)
        return 2
    if res.get('ok'):
        print('replay: no violation')
        return 0
    print('%s: %s' % (res['cls'], res['msg']))
    print('VIOLATION property=%s replay=%s' % (rep['property'], args.file))
    return 1 if res['cls'] == rep['violation'] else 3


def digest(args):
    h = Harness(args.property)
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        sub = os.path.join(h.base, 'r')
        os.mkdir(sub)
        for i in args.indices.split(','):
            plan = h.core.make_plan(h.mod, seed, int(i), args.tier)
            r = h.judge(plan, sub)
            print('DIGEST', i, r.get('digest', str(r)[:200]), flush=True)
    finally:
        h.close()
    return 0


def one(args):
    h = Harness(args.property)
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        sub = os.path.join(h.base, 'r')
        os.mkdir(sub)
        plan = h.core.make_plan(h.mod, seed, args.index, args.tier)
        print(json.dumps(plan, indent=1)[:args.show])
        r = h.judge(plan, sub)
        for t in r.pop('trace', []):
            print('  ', t)
        for k, v in r.items():
            print(k, ':', v)
    finally:
        h.close()
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd', required=True)
    a = sp.add_parser('check')
    a.add_argument('property')
    a.add_argument('--tier')
    a.add_argument('--runs', type=int)
    a.add_argument('--wall', type=float)
    a.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a.add_argument('--no-det', action='store_true')
    a = sp.add_parser('replay')
    a.add_argument('file')
    a = sp.add_parser('digest')
    a.add_argument('property')
    a.add_argument('indices')
    a.add_argument('--tier', default='quick')
    a = sp.add_parser('one')
    a.add_argument('property')
    a.add_argument('index', type=int)
    a.add_argument('--tier', default='quick')
    a.add_argument('--show', type=int, default=3000)
    args = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    if os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    fn = dict(check=check, replay=replay, digest=digest, one=one)[args.cmd]
    try:
        return fn(args)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == '__main__':
    sys.exit(main())
