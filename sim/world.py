"""The simulated operating system under the reader.

Seams (all existing interfaces, nothing in /repo is changed):
  builtins.open / io.open  -> files in the scratch directory get a raw layer that this
                              module owns (short reads, EIO, interrupts, full disks)
  subprocess.Popen         -> the gzip helper is a simulated process with a bounded pipe
  time.sleep/monotonic/... -> simulated clock
Every decision comes from the run's plan or from PRNGs seeded by it.
"""
import builtins
import errno
import io
import os
import random
import shlex
import signal
import struct
import subprocess
import sys
import time
import weakref
import zlib

real_open = builtins.open
real_Popen = subprocess.Popen
real_monotonic = time.monotonic
real_time = time.time
real_perf = time.perf_counter
real_sleep = time.sleep
real_kill = os.kill

CURRENT = None            # the World of the running simulation
SCRATCH = None            # realpath of the worker's scratch directory


class SimHang(BaseException):
    """The code under test can never make progress (or exceeded its step budget)."""


class World:
    def __init__(self, io_plan=None, budget=400000):
        p = dict(io_plan or {})
        self.plan = p
        self.rng = random.Random('io/%s' % p.get('seed', 0))
        self.buf = p.get('buf')              # reader buffer size or None for the default
        self.short = p.get('short', 0.0)     # probability of a short raw read
        self.helper_cfg = p.get('helper') or {}
        self.clock = 0.0
        self.steps = 0
        self.budget = budget
        self.counts = {}                     # what actually happened, by kind
        self.reach = 0                       # end of the furthest raw read (reset by checks)
        self.buffer = 0                      # largest buffer size handed out
        self.armed = None                    # pending one-shot read fault
        self.write_plan = p.get('write') or {}
        self.procs = []
        self.writers = []
        self.spawn_n = 0
        self.open_hook = None                # called before a file is opened
        self.yield_hook = None               # called at every I/O point (thread scheduler)
        self.sched = []                      # deterministic trace of scheduling decisions

    # ------------------------------------------------------------ bookkeeping
    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def step(self, what):
        self.steps += 1
        self.clock += 1e-6
        if self.steps > self.budget:
            raise SimHang('step budget exceeded at %s' % what)
        if self.yield_hook is not None:
            self.yield_hook(what)

    def arm(self, kind='EIO', after=0):
        """the raw read number `after` from now fails once"""
        self.armed = [after, kind]

    def disarm(self):
        fired = self.armed is None
        self.armed = None
        return fired

    def fault_point(self, what):
        a = self.armed
        if a is None:
            return
        if a[1].startswith('seek') != (what == 'seek'):
            return
        if a[0] > 0:
            a[0] -= 1
            return
        self.armed = None
        kind = a[1].replace('seek', '')
        self.count('fault:read_' + kind + ('@seek' if what == 'seek' else ''))
        if kind == 'KI':
            raise KeyboardInterrupt('simulated interrupt')
        e = getattr(errno, kind)
        raise OSError(e, os.strerror(e))


# ---------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """Unbuffered file in the scratch directory."""

    def __init__(self, path, mode):
        super().__init__(path, mode)
        self._w = CURRENT
        self._n_written = 0

    def readinto(self, b):
        w = self._w
        w.step('read')
        w.fault_point('read')
        n = len(b)
        if n > 1 and w.short and w.rng.random() < w.short:
            n = w.rng.randint(1, n - 1)
            w.count('fault:short_read')
        k = super().readinto(memoryview(b)[:n])
        w.reach = max(w.reach, super().tell())
        return k

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = bytearray()
        buf = bytearray(65536)
        while True:
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def seek(self, pos, whence=0):
        self._w.step('seek')
        self._w.fault_point('seek')
        return super().seek(pos, whence)

    def write(self, b):
        w = self._w
        w.step('write')
        wp = w.write_plan
        mv = memoryview(b).cast('B')
        n = len(mv)
        at = wp.get('eio_at')
        if at is not None and self._n_written + n > at and not wp.get('fired'):
            if wp.get('once'):
                wp['fired'] = 1
            w.count('fault:write_EIO')
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        full = wp.get('full_at')
        if full is not None and self._n_written + n > full:
            room = full - self._n_written
            if room <= 0:
                w.count('fault:write_ENOSPC')
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            n = room                     # the part that still fits is written
            w.count('fault:short_write')
        elif n > 1 and wp.get('short') and w.rng.random() < wp['short']:
            n = w.rng.randint(1, n - 1)
            w.count('fault:short_write')
        k = super().write(mv[:n])
        self._n_written += k
        return k

    def close(self):
        if not self.closed and self.writable():
            super().close()
            if self._w.write_plan.get('close_err'):
                self._w.count('fault:close_EIO')
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            return
        super().close()


def in_scratch(path):
    if SCRATCH is None or CURRENT is None or isinstance(path, int):
        return False
    try:
        p = os.path.realpath(os.fsdecode(path))
    except TypeError:
        return False
    return p.startswith(SCRATCH + os.sep)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not in_scratch(file) or opener is not None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = CURRENT
    w.step('open')
    if w.open_hook is not None:
        w.open_hook(mode)
    if w.plan.get('open_err') and ('r' in mode):
        k = w.plan['open_err']
        w.n_open = getattr(w, 'n_open', -1) + 1
        if w.n_open == k['n']:
            w.count('fault:open_' + k['e'])
            e = getattr(errno, k['e'])
            raise OSError(e, os.strerror(e), os.fsdecode(file))
    binary = 'b' in mode
    raw = SimRaw(os.fspath(file), mode.replace('b', '').replace('t', ''))
    if buffering == 0 and binary:
        return raw
    if not hasattr(w, 'bufs'):
        w.bufs = random.Random('buf/%s' % w.plan.get('seed', 0))
    size = buffering if buffering > 1 else (w.buf or w.bufs.choice([1, 7, 16, 61, 512, 8192, 131072]))
    w.buffer = max(w.buffer, size)
    if '+' in mode:
        f = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        f = io.BufferedReader(raw, size)
    else:
        f = io.BufferedWriter(raw, size)
    if binary:
        return f
    t = io.TextIOWrapper(f, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def open_fds(prefix=None):
    """real descriptors of this process that point into the scratch directory"""
    out = []
    for d in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + d)
        except OSError:
            continue
        if t.startswith((prefix or SCRATCH) + os.sep):
            out.append(os.path.basename(t.split(' (deleted)')[0]))
    return sorted(out)


# ---------------------------------------------------------------- the gzip helper
def gzip_cli(raw):
    """What `gzip -cd` writes for these stored bytes: (output, exit status, message).

    Models GNU gzip 1.12: window-wise output, CRC and length checks per member,
    trailing garbage warning, premature end of input.
    """
    out = bytearray()
    pos, first = 0, True
    n = len(raw)
    while True:
        if not first:
            # zero padding between or after members is ignored
            q = pos
            while q < n and raw[q] == 0:
                q += 1
            if q == n:
                return bytes(out), 0, ''
            if q != pos and raw[q:q + 2] != b'\x1f\x8b':
                return bytes(out), 2, 'decompression OK, trailing zero bytes ignored'
            if pos + 1 == n:
                return bytes(out), 1, 'unexpected end of file'
            if raw[pos:pos + 2] != b'\x1f\x8b':
                return bytes(out), 2, 'decompression OK, trailing garbage ignored'
        start = pos
        if pos + 10 > n:
            return bytes(out), 1, 'unexpected end of file'
        if raw[pos:pos + 2] != b'\x1f\x8b':
            return bytes(out), 1, 'not in gzip format'
        method, flags = raw[pos + 2], raw[pos + 3]
        if method != 8:
            return bytes(out), 1, 'unknown method %d -- not supported' % method
        if flags & 0xe0 or flags & 0x20:
            return bytes(out), 1, 'has flags 0x%x -- not supported' % flags
        pos += 10
        if flags & 4:
            if pos + 2 > n:
                return bytes(out), 1, 'unexpected end of file'
            pos += 2 + struct.unpack_from('<H', raw, pos)[0]
        for bit in (8, 16):
            if flags & bit:
                z = raw.find(b'\0', pos)
                if z < 0:
                    return bytes(out), 1, 'unexpected end of file'
                pos = z + 1
        if flags & 2:
            if pos + 2 > n:
                return bytes(out), 1, 'unexpected end of file'
            if struct.unpack_from('<H', raw, pos)[0] != (zlib.crc32(raw[start:pos]) & 0xffff):
                return bytes(out), 1, 'header checksum error'
            pos += 2
        if pos > n:
            return bytes(out), 1, 'unexpected end of file'
        d = zlib.decompressobj(-15)
        body = bytearray()
        bad = False
        q = pos
        while q < n and not d.eof:
            try:
                body += d.decompress(raw[q:q + 64])
            except zlib.error:
                bad = True
                break
            q += 64
        if bad:
            keep = len(body) - len(body) % 32768
            return bytes(out + body[:keep]), 1, 'invalid compressed data--format violated'
        if not d.eof:
            # gzip needs more look-ahead than zlib: the last decoded symbol may be missing
            lack = (0, 1, 17, 258)[zlib.crc32(raw) % 4]
            return bytes(out + body[:max(0, len(body) - lack)]), 1, 'unexpected end of file'
        pos = min(q, n) - len(d.unused_data)
        out += body
        if pos + 8 > n:
            return bytes(out), 1, 'unexpected end of file'
        crc, size = struct.unpack_from('<II', raw, pos)
        pos += 8
        if crc != zlib.crc32(bytes(body)) & 0xffffffff:
            return bytes(out), 1, 'invalid compressed data--crc error'
        if size != len(body) & 0xffffffff:
            return bytes(out), 1, 'invalid compressed data--length error'
        first = False
        if pos == n:
            return bytes(out), 0, ''


class Helper:
    """A simulated decompression process writing into a bounded pipe."""

    def __init__(self, world, output, rc, err, cfg):
        self.w = world
        self.rng = random.Random('helper/%s/%s' % (world.plan.get('seed', 0), world.spawn_n))
        self.out, self.rc, self.err = output, rc, err
        self.cfg = cfg
        self.cap = cfg.get('cap', 65536)
        self.produced = self.consumed = 0
        self.status = None                 # exit status once dead
        self.stdout_closed = False
        self.speed = cfg.get('speed', 0.5)  # tendency to run ahead of the reader
        self.kill_at = cfg.get('kill_at')
        self.stalls = sorted(cfg.get('stalls') or [])
        self.ignore_term = cfg.get('ignore_term', False)
        self.term_at = None
        self.stopped = False
        self.pipes = []                    # (name, weak reference to the reader's end)
        self.reaped = False
        if cfg.get('err_at') is not None:    # the helper itself meets a read error
            k = min(cfg['err_at'], len(output))
            self.out, self.rc, self.err = output[:k], 1, 'Input/output error'
            world.count('fault:helper_EIO')
        self.limit = len(self.out)
        if self.kill_at is not None:
            self.limit = min(self.limit, self.kill_at)

    def err_bytes(self):
        if self.status is None and self.produced < self.limit:
            return b''
        if self.kill_at is not None and self.limit < len(self.out) or (self.status is not None and self.status < 0):
            return b''
        return self.err if isinstance(self.err, bytes) else ('\ngzip: %s\n' % self.err).encode()

    def exit(self, status):
        if self.status is None:
            self.status = status

    def check_term(self):
        if self.term_at is not None and self.w.clock >= self.term_at and self.status is None:
            self.exit(-self.term_sig)

    def advance(self, until_data=False):
        """Let the process run a little. Returns True if anything changed."""
        self.check_term()
        if self.status is not None:
            return False
        if self.stalls and self.produced >= self.stalls[0][0]:
            at, dt = self.stalls.pop(0)
            self.w.count('fault:helper_stall')
            if until_data:
                self.w.clock += dt
            else:
                self.stalls.insert(0, (at, dt))
                return False
        if self.produced >= self.limit:
            if self.kill_at is not None and self.produced >= self.kill_at:
                self.w.count('fault:helper_killed')
                self.exit(-self.cfg.get('sig', 9))
            else:
                self.exit(self.rc)
            return True
        if self.stdout_closed:
            self.exit(-13)
            return True
        room = self.cap - (self.produced - self.consumed)
        if room <= 0:
            return False
        n = min(room, self.limit - self.produced)
        mode = self.cfg.get('chunk', 'mix')
        if mode == 'tiny':
            n = min(n, self.rng.randint(1, 5))
        elif mode == 'mix':
            n = min(n, self.rng.choice([1, 13, 100, 4096, 32768]))
        if self.stalls:
            n = min(n, max(1, self.stalls[0][0] - self.produced))
        self.produced += n
        return True

    def drift(self):
        """asynchronous progress while the reader does something else"""
        for _ in range(6):
            if self.rng.random() >= self.speed:
                break
            if not self.advance():
                break
        self.w.sched.append(self.produced)

    def deliver(self, want):
        """blocking read of up to `want` bytes from the pipe"""
        self.drift()
        while self.produced == self.consumed:
            if self.status is not None:
                return b''
            if not self.advance(until_data=True) and self.status is None:
                raise SimHang('read from helper blocks for ever')
        n = min(want, self.produced - self.consumed)
        if n > 1 and self.rng.random() < 0.5:
            n = self.rng.randint(1, n)
            self.w.count('sched:partial_pipe_read')
        data = self.out[self.consumed:self.consumed + n]
        self.consumed += n
        return data


class PipeEnd(io.RawIOBase):
    def __init__(self, helper, which):
        self._h, self.which = helper, which
        self.pos = 0
        helper.pipes.append((which, weakref.ref(self)))

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('simulated pipe')

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        h = self._h
        h.w.step('pipe-' + self.which)
        if len(b) == 0:
            return 0
        if self.which == 'stdout':
            h.w.fault_point('read')
            d = h.deliver(len(b))
        else:
            # end of the error stream means the helper has gone
            while h.status is None:
                if not h.advance(until_data=True) and h.status is None:
                    raise SimHang('helper blocked on a full pipe while its error stream is read')
            e = h.err_bytes()
            d = e[self.pos:self.pos + len(b)]
            self.pos += len(d)
        b[:len(d)] = d
        return len(d)

    def close(self):
        if not self.closed and self.which == 'stdout':
            self._h.stdout_closed = True
        super().close()


_fake_pid = 1 << 23


class SimPopen:
    """Drop-in for subprocess.Popen for gzip-like helpers; nothing real is started."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        w = CURRENT
        if w is None:
            raise RuntimeError('no simulation is running')
        w.step('spawn')
        self._w = w
        cfg = dict(w.helper_cfg)
        n = w.spawn_n
        w.spawn_n += 1
        cfg.update((w.plan.get('helper_n') or {}).get(str(n), {}))     # faults of one process only
        if isinstance(args, (str, bytes)):
            argv = shlex.split(os.fsdecode(args)) if shell else [os.fsdecode(args)]
        else:
            argv = [os.fsdecode(os.fspath(a)) for a in args]
        self.args, self.returncode = args, None
        global _fake_pid
        _fake_pid += 1
        self.pid = _fake_pid
        self.stdin = self.stdout = self.stderr = None
        w.count('spawn')
        fail = cfg.get('spawn')
        if fail:
            w.count('fault:spawn_' + fail)
            e = getattr(errno, fail)
            raise OSError(e, os.strerror(e), argv[0])
        prog = os.path.basename(argv[0])
        if prog not in ('gzip', 'zcat', 'gunzip', 'pigz', 'unpigz', 'gzcat'):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        out, rc, msg = self._run(prog, argv[1:], stdin)
        if cfg.get('fail_now'):
            # gzip starts but fails at once, before writing anything
            w.count('fault:helper_fails_at_once')
            out, rc, msg = b'', 1, 'simulated immediate failure'
        err = ('\n%s: %s: %s\n' % (prog, argv[-1], msg)).encode() if msg else b''
        self._h = Helper(w, out, rc, err, cfg)
        w.procs.append(Proc(self))
        self.text = text or universal_newlines or encoding
        if stdout == subprocess.PIPE:
            self.stdout = self._wrap(PipeEnd(self._h, 'stdout'), bufsize)
        elif stdout not in (None, subprocess.DEVNULL) and hasattr(stdout, 'write'):
            stdout.write(out)
            self._h.produced = self._h.consumed = self._h.limit
        if stderr == subprocess.PIPE:
            self.stderr = self._wrap(PipeEnd(self._h, 'stderr'), bufsize)
        if stdin == subprocess.PIPE:
            self.stdin = io.BytesIO()
        self._h.drift()

    def _wrap(self, raw, bufsize):
        if bufsize == 0:
            f = raw
        else:
            f = io.BufferedReader(raw, bufsize if bufsize > 1 else 8192)
        if self.text:
            f = io.TextIOWrapper(io.BufferedReader(raw) if bufsize == 0 else f)
        return f

    @staticmethod
    def _run(prog, argv, stdin):
        flags, paths, raw = set(), [], None
        opts = True
        for a in argv:
            if opts and a == '--':
                opts = False
            elif opts and a.startswith('--'):
                flags.add({'--stdout': 'c', '--to-stdout': 'c', '--decompress': 'd', '--uncompress': 'd',
                           '--force': 'f', '--quiet': 'q', '--keep': 'k'}.get(a, '?'))
            elif opts and a.startswith('-') and len(a) > 1:
                flags |= set(a[1:])
            else:
                paths.append(a)
        if '?' in flags or not flags <= set('cdfqknv?0123456789'):
            return b'', 1, 'invalid option'
        if prog in ('zcat', 'gzcat'):
            flags |= {'c', 'd'}
        if prog in ('gunzip', 'unpigz'):
            flags.add('d')
        if not paths:
            if stdin is None or isinstance(stdin, int):
                return b'', 1, 'no input'
            raw = stdin.read()
        elif 'c' not in flags or 'd' not in flags:
            return b'', 1, 'refusing to work in place'
        outs, rc, msg = b'', 0, ''
        for p in paths or [None]:
            if p is not None:
                if p == '-':
                    return outs, 1, 'standard input is a terminal'
                try:
                    fd = os.open(p, os.O_RDONLY)
                except OSError as e:
                    return outs, 1, os.strerror(e.errno)
                raw = b''
                while True:
                    d = os.read(fd, 1 << 20)
                    if not d:
                        break
                    raw += d
                os.close(fd)
            o, rc, msg = gzip_cli(raw)
            outs += o
        if rc == 2 and 'q' in flags:
            msg = ''
        return outs, rc, msg

    def __class_getitem__(cls, item):
        return cls

    # ------------------------------------------------------------ Popen interface
    def poll(self):
        self._w.step('poll')
        self._h.drift()
        self._h.check_term()
        if self.returncode is None and self._h.status is not None:
            self.returncode = self._h.status
            self._h.reaped = True
        return self.returncode

    def wait(self, timeout=None):
        self._w.step('wait')
        deadline = None if timeout is None else self._w.clock + timeout
        h = self._h
        while h.status is None:
            if h.advance(until_data=True):
                continue
            if h.status is not None:
                break
            if h.term_at is not None and (deadline is None or h.term_at <= deadline):
                self._w.clock = max(self._w.clock, h.term_at)
                h.check_term()
                continue
            if deadline is None:
                raise SimHang('waiting for a helper that is blocked on a full pipe nobody reads'
                              if not h.ignore_term else 'waiting for ever for an unresponsive helper')
            self._w.clock = max(self._w.clock, deadline)
            self._w.count('wait_timeout')
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = h.status
        self._h.reaped = True
        return self.returncode

    def send_signal(self, sig):
        self._w.step('signal')
        self.poll()
        h = self._h
        if self.returncode is not None or h.status is not None:
            return
        if sig == signal.SIGKILL:
            h.exit(-9)
        elif sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            if h.ignore_term:
                self._w.count('fault:helper_ignores_signal')
                # a process that does not react does not make progress either
                h.stopped = True
                h.advance = lambda until_data=False: False
            else:
                h.term_sig = int(sig)
                h.term_at = self._w.clock + self._h.cfg.get('term_delay', 0.0)
                h.advance = self._dying_advance
                h.check_term()

    def _dying_advance(self, until_data=False):
        h = self._h
        h.check_term()
        return False

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def communicate(self, input=None, timeout=None):
        out = err = None
        if self.stdout is not None:
            out = self.stdout.read()
            self.stdout.close()
        if self.stderr is not None:
            err = self.stderr.read()
            self.stderr.close()
        self.wait(timeout)
        return out, err

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None:
                f.close()
        self.wait()


class Proc:
    """What the system knows of a started helper, whether or not the program still refers to it."""

    def __init__(self, popen):
        self._h, self.pid, self._ref = popen._h, popen.pid, weakref.ref(popen)

    def send_signal(self, sig):
        p = self._ref()
        if p is not None:
            p.send_signal(sig)

    def leftovers(self):
        """what of this process is still held by the program, or running"""
        h, out = self._h, []
        h.check_term()
        if h.status is None:
            out.append('helper running')
        if not h.reaped:
            out.append('helper not reaped')
        for name, ref in h.pipes:
            f = ref()
            if f is not None and not f.closed:
                out.append('pipe %s open' % name)
        return out


def sim_kill(pid, sig):
    if CURRENT is not None:
        for p in CURRENT.procs:
            if p.pid == pid:
                return p.send_signal(sig)
    return real_kill(pid, sig)


def sim_sleep(s):
    if CURRENT is None:
        return real_sleep(s)
    CURRENT.step('sleep')
    CURRENT.clock += max(0, s)
    for p in CURRENT.procs:
        p._h.drift()


class _Clock:
    def __init__(self, real, base):
        self.real, self.base = real, base

    def __call__(self):
        return self.real() if CURRENT is None else self.base + CURRENT.clock


def install(scratch):
    """Patch the seams. Must run before eventio is imported."""
    global SCRATCH
    SCRATCH = os.path.realpath(scratch)
    builtins.open = sim_open
    io.open = sim_open
    subprocess.Popen = SimPopen
    os.kill = sim_kill
    time.sleep = sim_sleep
    time.monotonic = _Clock(real_monotonic, 1000.0)
    time.time = _Clock(real_time, 1.7e9)
    time.perf_counter = _Clock(real_perf, 1000.0)


class running:
    """with running(world): ... - the simulation is active inside the block"""

    def __init__(self, world):
        self.w = world

    def __enter__(self):
        global CURRENT
        assert CURRENT is None
        CURRENT = self.w
        return self.w

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
