"""The simulator: processes, scheduling, faults, events, step budget."""
import errno
import gc
import hashlib
import os
import random
import sys
import _thread
import traceback

from .fs import FS, SimCrash, SimBudget, FAULT_ERRNO, install


class Violation(Exception):
    """The property does not hold: raised by oracles, carries a class (for minimising) and text."""

    def __init__(self, cls, text):
        super().__init__(text)
        self.cls, self.text = cls, text


class Injected(OSError):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


INTERRUPTS = {'memory': InjectedMemoryError, 'interrupt': InjectedInterrupt}


class Proc:
    def __init__(self, world, pid, slot_index):
        self.world, self.pid, self.slot_index = world, pid, slot_index
        self.dead = False
        self.depth = 0            # nesting of library calls: events count only inside
        self.fired = []           # faults which fired since it was last emptied
        self.sem = None
        self.done = False
        self.error = None
        self.data = {}

    @property
    def slot(self):
        return self.world.slots.slots[self.slot_index]


class Lib:
    """A call into the library by a process: events happen, faults fire."""

    def __init__(self, proc):
        self.proc = proc

    def __enter__(self):
        self.proc.world.enter(self.proc)
        self.proc.depth += 1
        self.proc.fired = []
        w = self.proc.world
        self.restore = None
        if w.sched is not None and w.sched.lines:
            if sys.gettrace() is None:
                sys.settrace(w.sched._tracer(self.proc))
        elif w.intr and _thread.get_ident() in w.intr:
            self.restore = [sys.gettrace()]
            sys.settrace(w.interrupter())
        return self.proc

    def __exit__(self, et, ev, tb):
        self.proc.depth -= 1
        if self.restore is not None:
            sys.settrace(self.restore[0])
        return False


class World:
    def __init__(self, plan, slots):
        self.plan = plan
        self.seed = plan.get('seed', 0)
        self.slots = slots
        self.procs = []
        self.next_slot = 0
        self.cur = None
        self.sched = None
        self.events = 0
        self.bytes = 0
        self.trace = hashlib.sha256()       # every event, in order: the identity of the execution
        self.shape = hashlib.sha256()       # coarser: kinds and classes only, the interleaving measure
        self.counts = {}                    # (cls, kind) -> number of events, for placing faults
        self.fired_counts = {}
        self.probes = {}
        self.faults = []
        self.log = [] if plan.get('log') else None
        self.cache_dirs = []
        self.cache_names = {'.segpy'}
        self.stored_hook = None
        self.path_hook = None
        self.max_events = plan.get('max_events', 1000000)
        self.lines = 0
        self.intr = {}           # thread -> [source lines until an exception arrives, which]
        self.max_lines = plan.get('max_lines', 4000000)
        self.fs = FS(self)
        self.set_faults(plan.get('faults', []))
        install(self.fs)
        global active
        active = self

    # ---- processes ---------------------------------------------------------------------
    def spawn(self, like=None):
        """A new process; or a new thread of the process of another."""
        if like is None:
            if self.next_slot >= len(self.slots.slots):
                raise RuntimeError('too many simulated processes for the number of slots')
            index = self.next_slot
            self.next_slot += 1
        else:
            index = like.slot_index
        p = Proc(self, len(self.procs), index)
        self.procs.append(p)
        if self.cur is None:
            self.enter(p)
        return p

    def enter(self, proc):
        self.cur = proc
        self.slots.enter(proc.slot_index)

    def lib(self, proc):
        return Lib(proc)

    def current_pid(self):
        return -1 if self.cur is None else self.cur.pid

    def in_harness(self):
        return self.cur is None or self.cur.depth == 0

    def is_dead(self):
        return self.cur is not None and self.cur.dead

    # ---- faults ----------------------------------------------------------------------------
    def set_faults(self, faults):
        self.faults = [dict(f, seen=0) for f in faults]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def classify(self, path):
        if path is None:
            return 'none'
        for d in self.cache_dirs:
            if path == d or path.startswith(d + '/') or d.startswith(path + '/'):
                return 'cache'
        for part in path.split('/'):
            if part in self.cache_names:
                return 'cache'
        if path.endswith('.out'):
            return 'out'
        if path.endswith('.sgy'):
            return 'segy'
        return 'other'

    def note(self, *what):
        """A step of the history, other than a system call, which belongs to the execution's identity."""
        s = '|'.join(map(str, what))
        self.trace.update(s.encode('utf8', 'backslashreplace') + b'\n')
        if self.log is not None:
            self.log.append('    ' + s)

    def event(self, kind, path, size=0):
        proc = self.cur
        if proc is None or proc.depth == 0:
            return
        if proc.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point()
            proc = self.cur
            if proc.dead:
                raise SimCrash()
        self.events += 1
        self.bytes += size
        self.fs.clock += 0.0001 + size * 1e-8
        cls = self.classify(path)
        self.trace.update(('%d %s %s %d\n' % (proc.pid, kind, path, size)).encode('utf8', 'backslashreplace'))
        self.shape.update(('%d %s %s\n' % (proc.pid, kind, cls)).encode())
        if self.log is not None:
            self.log.append('%6d p%d %-8s %s %s' % (self.events, proc.pid, kind, path, size or ''))
        key = cls + '.' + kind
        self.counts[key] = self.counts.get(key, 0) + 1
        if self.events > self.max_events:
            raise SimBudget('more than %d file operations' % self.max_events)
        for f in self.faults:
            if f['cls'] not in (cls, 'any') or f['kind'] not in (kind, 'any') and not (
                    isinstance(f['kind'], list) and kind in f['kind']):
                continue
            if f.get('proc') is not None and f['proc'] != proc.pid:
                continue
            f['seen'] += 1
            if f['seen'] == f['n'] or (f.get('persist') and f['seen'] > f['n']
                                       and f['seen'] <= f['n'] + f.get('span', 10 ** 9)):
                if f['do'] in ('short', 'partial') and kind in ('read', 'write'):
                    f['armed'] = True
                    continue
                self.fire(f, kind, cls, path)

    def fire(self, f, kind, cls, path):
        proc = self.cur
        do = f['do']
        proc.fired.append((do, kind, cls))
        name = do + '@' + cls + '.' + kind
        self.fired_counts[name] = self.fired_counts.get(name, 0) + 1
        if self.log is not None:
            self.log.append('       FAULT %s at %s %s' % (do, kind, path))
        if do == 'crash':
            proc.dead = True
            raise SimCrash()
        if do == 'memory':
            raise InjectedMemoryError('injected')
        if do in FAULT_ERRNO:
            e = FAULT_ERRNO[do]
            raise OSError(e, os.strerror(e) + ' (injected)', path)
        if do in ('short', 'partial'):
            return
        raise AssertionError(do)

    def transfer(self, kind, path, n, limit):
        """How many of n bytes a read or write call transfers."""
        self.event(kind, path, n)
        cls = self.classify(path)
        least = max(1, n // 256)        # large transfers are not divided into very many
        for f in self.faults:
            if f.pop('armed', None):
                self.fire(f, kind, cls, path)
                if n > 1 and self.events < 60000:
                    n = max(min(n, least), min(n - 1, int(n * f.get('part', 0.5))))
        if limit is not None and self.cur is not None and self.cur.depth and self.events < 60000:
            m = max(limit(kind, n), least)
            if m < n:
                self.probe('short_' + kind)
                n = m
        return n

    def line_counter(self):
        """Counts the source lines executed by the code under test, and ends runaway loops."""
        def local(frame, event, arg):
            if event == 'line' and self.cur is not None and self.cur.depth:
                self.lines += 1
                if self.lines > self.max_lines:
                    self.max_lines += 1000
                    raise SimBudget('more than %d source lines' % (self.max_lines - 1000))
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            return local if '/segpy' in f or 'simuser' in f else None
        return tracer

    def line(self):
        """Another source line is about to be executed: an interrupt, or lack of memory, may come now."""
        i = self.intr.get(_thread.get_ident())
        if i is None:
            return
        i[0] -= 1
        if i[0] <= 0:
            del self.intr[_thread.get_ident()]
            self.cur.fired.append((i[1], 'line', 'line'))
            name = i[1] + '@line'
            self.shape.update(name.encode())
            self.trace.update(name.encode())
            self.fired_counts[name] = self.fired_counts.get(name, 0) + 1
            if self.log is not None:
                self.log.append('       FAULT %s' % name)
            raise INTERRUPTS[i[1]]('injected')

    def interrupter(self):
        def local(frame, event, arg):
            if event == 'line' and self.cur is not None and self.cur.depth:
                self.line()
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            return local if '/segpy' in f or 'simuser' in f else None
        return tracer

    def stored(self, path, node):
        if self.stored_hook is not None:
            self.stored_hook(path, node)

    # ---- running ---------------------------------------------------------------------------
    def finish(self):
        return dict(events=self.events, bytes=self.bytes, trace=self.trace.hexdigest()[:24],
                    shape=self.shape.hexdigest()[:24], counts=self.counts, fired=self.fired_counts,
                    probes=self.probes, simtime=self.fs.clock - 1_000_000.0)


class Sched:
    """Runs processes or threads one at a time; the plan, or a seed, decides every switch.

    The decisions are recorded as a list of [step, pid]: at that switch point, change to
    that process.  Given such a list, exactly those switches are made.
    """

    def __init__(self, world, spec):
        self.world = world
        self.step = 0
        self.switches = []
        self.explicit = None
        self.lines = spec.get('lines', False)
        if 'switches' in spec:
            self.explicit = {s: p for s, p in spec['switches']}
        else:
            self.rng = random.Random(spec['seed'])
            self.mode = spec.get('mode', 'uniform')
            self.p = spec.get('p', 0.3)
        self.live = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.prio = {}
        self.change_points = set()
        if self.explicit is None and self.mode == 'pct':
            horizon = spec.get('horizon', 400)
            self.change_points = {self.rng.randrange(1, horizon) for _ in range(spec.get('depth', 3))}

    def run(self, bodies):
        """bodies: list of (proc, function)."""
        w = self.world
        self.live = [p for p, _ in bodies]
        if self.explicit is None and self.mode == 'pct':
            order = list(self.live)
            self.rng.shuffle(order)
            self.prio = {p: i for i, p in enumerate(order)}
        for p, fn in bodies:
            p.sem = _thread.allocate_lock()
            p.sem.acquire()
            p.done = False
            p.error = None
            _thread.start_new_thread(self._body, (p, fn))
        w.sched = self
        first = self.choose(None)
        self.cur = first
        w.enter(first)
        first.sem.release()
        self.main.acquire()
        w.sched = None
        for p, _ in bodies:
            if p.error is not None:
                raise p.error

    def _body(self, p, fn):
        p.sem.acquire()
        if self.lines:
            sys.settrace(self._tracer(p))
        try:
            fn(p)
        except SimCrash:
            p.dead = True
        except BaseException as e:
            p.error = e
        sys.settrace(None)
        p.done = True
        p.depth = 0
        self.live.remove(p)
        if self.live:
            n = self.choose(None)
            self.cur = n
            self.world.enter(n)
            n.sem.release()
        else:
            self.main.release()

    def _tracer(self, p):
        """Preempt between source lines of the code under test."""
        def local(frame, event, arg):
            if event == 'line' and p.depth:
                self.world.lines += 1
                if self.world.lines > self.world.max_lines:
                    raise SimBudget('more than %d source lines' % self.world.max_lines)
                self.point()
                if self.world.intr:
                    self.world.line()
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if '/segpy' in f or 'simuser' in f:
                return local
            return None
        return tracer

    def blocked(self):
        """The running thread cannot continue before another has."""
        cur = self.cur
        others = [p for p in self.live if p is not cur]
        if not others:
            raise SimBudget('deadlock')
        self.step += 1
        self.stuck = getattr(self, 'stuck', 0) + 1
        if self.stuck > 100000:
            raise SimBudget('deadlock or livelock')
        i = self.live.index(cur)
        n = self.live[(i + 1) % len(self.live)]
        self.hand_over(cur, n)

    def choose(self, cur):
        """The process to run next; cur is None if the present one cannot continue."""
        self.step += 1
        live = self.live
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            for p in live:
                if p.pid == want:
                    return p
            return cur if cur is not None else min(live, key=lambda p: p.pid)
        if self.mode == 'pct':
            if self.step in self.change_points and cur is not None:
                self.prio[cur] = min(self.prio.values()) - 1
            n = max(live, key=lambda p: self.prio[p])
        elif cur is not None and (len(live) == 1 or self.rng.random() >= self.p):
            n = cur
        else:
            others = [p for p in live if p is not cur]
            n = self.rng.choice(others) if others else cur
        if n is not cur:
            self.switches.append([self.step, n.pid])
        return n

    def point(self):
        cur = self.cur
        if cur.done:
            return
        n = self.choose(cur)
        if n is not cur:
            self.hand_over(cur, n)

    def hand_over(self, cur, n):
        self.world.probe('context_switch')
        self.world.trace.update(b'switch %d %d\n' % (self.step, n.pid))
        self.world.shape.update(b'>%d' % n.pid)
        self.cur = n
        self.world.enter(n)
        n.sem.release()
        cur.sem.acquire()
        # whoever released us has made us current already


active = None         # the world being simulated


class SimLock:
    """threading.Lock for the code under test: waiting lets other simulated threads run."""
    _make = staticmethod(_thread.allocate_lock)

    def __init__(self):
        self._inner = self._make()

    def acquire(self, blocking=True, timeout=-1):
        sched = active.sched if active is not None else None
        if sched is None:
            return self._inner.acquire(blocking, timeout)
        while not self._inner.acquire(False):
            if not blocking or timeout == 0:
                return False
            if timeout > 0:
                active.fs.clock += 0.01
                timeout -= 0.01
                if timeout <= 0:
                    return False
            sched.blocked()
        return True

    def release(self):
        self._inner.release()

    def locked(self):
        return self._inner.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    """Owned by simulated threads, which are real threads here as well."""

    def __init__(self):
        self._inner = _thread.allocate_lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._inner.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        self._inner.release()
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self._owner, self._count = _thread.get_ident(), c


def install_locks():
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock
