"""Runs threads of the code under test one at a time, under schedules chosen from outside, in a
time of their own.  Locks, threads and clocks of the standard library are replaced, so this has to
be imported before anything that uses them; code that blocks in other ways is noticed by a
watchdog and merely schedules less precisely."""
import sys, _thread, threading, time as _time, queue

real_lock = _thread.allocate_lock
real_monotonic = _time.monotonic
real_sleep = _time.sleep
CODE = None             # files with this prefix are interrupted between any two instructions
NATIVE = .3             # real seconds without progress that count as blocked
S = None                # the scheduler of the present run


class Abort(BaseException):
    pass


class T(object):
    def __init__(self, name):
        self.name, self.sem, self.state, self.pred, self.until = name, real_lock(), 'run', None, None
        self.sem.acquire()
        self.caller = self.hung = False
        self.no = 0


class Sched(object):
    def __init__(self, strategy):
        self.threads, self.cur, self.now, self.mx = [], None, 1000.0, real_lock()
        self.strategy, self.steps, self.aborting = strategy, 0, False
        self.over = real_lock(); self.over.acquire()
        self.finished = False
        self.by_ident = {}
        self.idle = None        # called when nobody has anything to do but to let time pass

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == 'run' or t.state == 'wait' and ((t.until is not None and t.until <= self.now) or (t.pred and t.pred())):
                out.append(t)
        return out

    def pick(self, kind):
        """The next thread to run, or None; called with mx held."""
        while True:
            r = self.runnable()
            if r:
                return self.strategy(self, r, kind)
            if any(t.state == 'native' for t in self.threads):
                return None
            d = [t.until for t in self.threads if t.state == 'wait' and t.until is not None]
            if not d:
                return None
            if min(d) > self.now and self.idle: self.idle()
            self.now = min(d)

    def hand(self, kind, me=None):
        """Let the chosen thread go on; mx is held and released here."""
        t = self.pick(kind)
        self.steps += 1
        self.cur = t
        if t is not None:
            t.state = 'run'
            t.pred = None
        elif not any(x.state == 'native' for x in self.threads) and not self.finished:
            self.finished = True
            self.over.release()
        self.mx.release()
        if t is me and me is not None:
            return
        if t is not None:
            t.sem.release()
        if me is not None and me.state != 'done':
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def point(self, kind):
        me = self.me()
        if me is None:
            return
        if self.aborting:
            raise Abort()
        self.mx.acquire()
        if self.cur is not me:              # it was taken for blocked
            me.state = 'run'
            if self.cur is None:
                self.hand(kind, me)
                return
            self.mx.release()
            me.sem.acquire()
            if self.aborting: raise Abort()
            return
        self.hand(kind, me)

    def wait(self, pred, timeout=None):
        """Block until pred() or the time is over; whether pred() held."""
        me = self.me()
        if me is None:
            return bool(pred and pred())
        if self.aborting:
            raise Abort()
        self.mx.acquire()
        me.state, me.pred, me.until = 'wait', pred, None if timeout is None else self.now + max(timeout, 0)
        if self.cur is not me and self.cur is not None:
            self.mx.release()
            me.sem.acquire()
            if self.aborting: raise Abort()
        else:
            self.hand('wait', me)
        me.until = None
        return bool(pred and pred())

    def begin(self, f, name, caller=False):
        t = T(name)
        t.caller = caller
        t.no = len(self.threads)
        started = real_lock(); started.acquire()

        def boot():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t          # of threads that ended it may be used again
            started.release()
            t.sem.acquire()
            if not self.aborting:
                sys.settrace(tracer)
                try:
                    f()
                except BaseException:
                    pass
                sys.settrace(None)
            if self.aborting:
                t.state = 'done'
                return
            self.mx.acquire()
            t.state = 'done'
            if self.cur is t or self.cur is None:
                self.hand('end', t)
            else:
                self.mx.release()
        self.threads.append(t)
        _thread.start_new_thread(boot, ())
        started.acquire()
        return t

    def run(self, limit=30.0):
        """Run until nobody can go on; True when everybody the harness started is done."""
        self.mx.acquire()
        self.hand('begin')
        t0 = last = real_monotonic()
        seen = -1
        while not self.over.acquire(timeout=NATIVE / 3 if seen >= 0 else .02):
            n = real_monotonic()
            if self.steps != seen:
                seen, last = self.steps, n
            elif n - last > NATIVE:
                last = n
                self.mx.acquire()
                if self.steps != seen:
                    self.mx.release()
                elif self.cur is not None:
                    self.cur.state = 'native'
                    self.hand('native')
                else:
                    # only threads that block in other ways are left: give them some time
                    if n - t0 > limit / 3:
                        d = [t.until for t in self.threads if t.state == 'wait' and t.until is not None]
                        if d:
                            self.now = min(d)
                            self.hand('native')
                            continue
                    self.mx.release()
            if n - t0 > limit:
                break
        return all(t.state == 'done' for t in self.threads if t.caller)

    def end(self):
        self.aborting = True
        for t in self.threads:
            try:
                t.sem.release()
            except RuntimeError:
                pass


def tracer(frame, event, arg):
    if CODE and frame.f_code.co_filename.startswith(CODE):
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local
    return None


def local(frame, event, arg):
    if event == 'opcode' and S is not None:
        S.point('op')
    return local


class Lock(object):
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if S is not None: S.point('acquire')
        if self.held:
            if not blocking: return False
            if S is None: raise RuntimeError('blocked')
            S.wait(lambda: not self.held, None if timeout is None or timeout < 0 else timeout)
            if self.held: return False
        self.held = True
        return True

    def release(self):
        if not self.held: raise RuntimeError('release unlocked lock')
        self.held = False
        if S is not None and not S.aborting: S.point('release')

    def locked(self): return self.held
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self.held = False


class RLock(object):
    def __init__(self):
        self.lock, self.owner, self.n = Lock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        i = _thread.get_ident()
        if self.owner == i:
            self.n += 1
            return True
        if not self.lock.acquire(blocking, timeout): return False
        self.owner, self.n = i, 1
        return True

    def release(self):
        if self.owner != _thread.get_ident(): raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None
            self.lock.release()

    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def _is_owned(self): return self.owner == _thread.get_ident()
    def _at_fork_reinit(self): self.lock.held, self.owner, self.n = False, None, 0

    def _release_save(self):
        n, self.n, self.owner = self.n, 0, None
        self.lock.release()
        return n

    def _acquire_restore(self, n):
        self.lock.acquire()
        self.owner, self.n = _thread.get_ident(), n


class Thread(object):
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread.count += 1
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name, self.daemon, self._t = name or 'Thread-%d' % Thread.count, bool(daemon), None

    def run(self):
        if self._target: self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t: raise RuntimeError('threads can only be started once')
        self._t = S.begin(self.run, self.name)
        S.point('start')

    def join(self, timeout=None):
        if not self._t: raise RuntimeError('cannot join thread before it is started')
        S.point('join')
        S.wait(lambda: self._t.state == 'done', timeout)

    def is_alive(self): return self._t is not None and self._t.state != 'done'
    ident = native_id = property(lambda self: getattr(self._t, 'ident', None))
    def getName(self): return self.name
    def setName(self, n): self.name = n
    def isDaemon(self): return self.daemon
    def setDaemon(self, d): self.daemon = d


def now(): return S.now if S is not None else real_monotonic()


def sleep(d):
    if S is None or S.me() is None: real_sleep(d)
    else: S.wait(None, d)


def install(code):
    global CODE
    CODE = code
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock
    threading.Thread = Thread
    threading._time = _time.time = _time.monotonic = _time.perf_counter = now
    _time.sleep = sleep
    queue.time = now
    queue.SimpleQueue = queue._PySimpleQueue


# --- schedules ---------------------------------------------------------------------------
def random_walk(rnd, p):
    def f(s, r, kind):
        if s.cur in r and rnd.random() >= (p if kind == 'op' else max(p, .3)):
            return s.cur
        return rnd.choice(r)
    return f


def priorities(rnd, changes, steps=600):
    """Strict random priorities that change at a few points."""
    pri, at = {}, sorted(rnd.randrange(1, steps) for _ in range(changes))
    def f(s, r, kind):
        for t in r:
            pri.setdefault(t, rnd.random() + 1)
        while at and s.steps >= at[0]:
            at.pop(0)
            if s.cur in pri: pri[s.cur] = rnd.random() * (len(at) + 1) / 100
        return max(r, key=lambda t: pri[t])
    return f


def switches(where):
    """Go on with the same thread except at the given steps, where the n-th other one takes over."""
    def f(s, r, kind):
        o = [t for t in r if t is not s.cur]
        f.steps.append(len(o) if s.cur in r else 0)
        if s.steps in where and o:
            return o[where[s.steps] % len(o)]
        return s.cur if s.cur in r else r[0]
    f.steps = []
    return f


def guided(order, first, rnd):
    """The threads take turns between synchronisations in the given order of their numbers, once
    the first one is done."""
    left = list(order)
    def f(s, r, kind):
        for t in r:
            if t.no == first: return t
        if s.cur in r and kind == 'op': return s.cur
        while left:
            n = left.pop(0)
            for t in r:
                if t.no == n: return t
        return rnd.choice(r)
    return f
