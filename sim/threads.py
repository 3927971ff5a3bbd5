"""A deterministic thread scheduler: one thread runs at a time, preempted at source lines and I/O calls.

Real threads execute the program; a baton decides which. Every source line of the program
and every call into the simulated system is a scheduling point. The plan lists the points
at which the baton moves, so one plan is one exactly repeatable interleaving.
"""
import sys
import threading


COLD = ('base.py', 'file_types.py', 'io:')


class Scheduler:
    def __init__(self, world, switches, n, rep=1, hot=False):
        self.world = world
        self.switches = list(switches) * rep    # [gap in points, target], in order
        self.hot = hot                          # only count points inside the decoders
        self.left = self.switches.pop(0)[0] if self.switches else None
        self.target = switches[0][1] if switches else 0
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = list(range(n))
        self.me = None
        self.points = self.moved = 0
        self.where = []
        self.errors = []

    def point(self, what):
        if self.me is None or threading.current_thread() is not self.threads[self.me]:
            return
        self.points += 1
        if self.left is None or (self.hot and what.startswith(COLD)):
            return
        self.left -= 1
        if self.left >= 0:
            return
        target = self.alive[self.target % len(self.alive)]
        if self.switches:
            self.left, self.target = self.switches.pop(0)
        else:
            self.left = None
        me = self.me
        if target == me:
            return
        self.moved += 1
        if len(self.where) < 300:
            self.where.append('%d->%d at %s' % (me, target, what))
        self.me = target
        self.sems[target].release()
        self.sems[me].acquire()

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if '/eventio/' not in fn:
            return None
        if event == 'call':
            frame.f_trace_opcodes = False
        elif event == 'line':
            self.point('%s:%s' % (fn.rsplit('/', 1)[1], frame.f_code.co_name))
        return self.trace

    def body(self, i, fn):
        self.sems[i].acquire()
        sys.settrace(self.trace)
        try:
            fn()
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.me = self.alive[i % len(self.alive)]
                self.sems[self.me].release()
            else:
                self.me = None
                self.main.release()

    def run(self, fns):
        self.threads = [threading.Thread(target=self.body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in self.threads:
            t.start()
        self.world.yield_hook = self.point
        self.me = 0
        self.sems[0].release()
        self.main.acquire()
        self.world.yield_hook = None
        for t in self.threads:
            t.join()
        if self.errors:
            raise self.errors[0]
