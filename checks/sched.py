"""Deterministic schedules: threads are switched only at accesses of an instrumented file and at lock operations."""
import io
import threading

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock


class Sched:
    """Runs programs (callables) in threads, one at a time.  choose(enabled, current) picks the next thread."""

    current = None

    def __init__(self, programs, choose):
        self.choose, self.trace = choose, []
        self.n = len(programs)
        self.wake = [threading.Semaphore(0) for _ in programs]
        self.back = threading.Semaphore(0)
        self.finished, self.waiting, self.errors = [False] * self.n, [None] * self.n, [None] * self.n
        self.at_point = [True] * self.n
        self.ident = {}
        self.deadlock = None
        self.threads = [threading.Thread(target=self._main, args=(i, p), daemon=True) for i, p in enumerate(programs)]

    def _main(self, i, program):
        self.ident[threading.get_ident()] = i
        self.wake[i].acquire()
        try:
            program()
        except BaseException as e:  # pylint: disable=broad-except
            self.errors[i] = e
        self.finished[i] = True
        self.at_point[i] = True
        self.back.release()

    def me(self):
        return self.ident.get(threading.get_ident())

    def point(self, waiting=None):
        i = self.me()
        if i is None:
            return
        self.waiting[i] = waiting
        self.at_point[i] = True
        self.back.release()
        self.wake[i].acquire()

    def run(self):
        Sched.current = self
        try:
            for t in self.threads:
                t.start()
            cur = None
            while not all(self.finished):
                enabled = [i for i in range(self.n) if not self.finished[i] and self.at_point[i]
                           and not (self.waiting[i] is not None and self.waiting[i].owner not in (None, i))]
                if not enabled:
                    if all(self.at_point):
                        self.deadlock = [i for i in range(self.n) if not self.finished[i]]
                        return self
                    if not self.back.acquire(timeout=5):
                        self.deadlock = [i for i in range(self.n) if not self.finished[i]]
                        return self
                    continue
                cur = self.choose(enabled, cur if cur in enabled else None)
                self.trace.append((tuple(enabled), cur))
                self.at_point[cur] = False
                self.wake[cur].release()
                self.back.acquire(timeout=0.5)  # a thread that blocks on a lock which is not instrumented is left alone
            return self
        finally:
            Sched.current = None


class SchedLock:
    reentrant = False

    def __init__(self):
        self.owner, self.count, self.real = None, 0, REAL_RLOCK()

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        i = s.me() if s else None
        if i is None:
            return self.real.acquire(blocking, timeout)
        if not (self.reentrant and self.owner == i):
            s.point(waiting=self)
            while self.owner is not None:  # the own lock as well: a deadlock for a lock that is not reentrant
                if not blocking:
                    return False
                s.point(waiting=_Never() if self.owner == i else self)
            s.waiting[i] = None
        self.owner = i
        self.count += 1
        return True

    def release(self):
        s = Sched.current
        if not s or s.me() is None:
            return self.real.release()
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.point()
        return None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class _Never:
    owner = -1


class SchedRLock(SchedLock):
    reentrant = True


class patched:
    """Locks made inside this block are instrumented."""

    def __enter__(self):
        threading.Lock, threading.RLock = SchedLock, SchedRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK


class SchedFile(io.RawIOBase):
    """A file with a switching point before every access."""

    def __init__(self, data):
        super().__init__()
        self.f = io.BytesIO(data)

    @staticmethod
    def _point():
        if Sched.current:
            Sched.current.point()

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        self._point()
        return self.f.seek(o, w)

    def tell(self):
        self._point()
        return self.f.tell()

    def read(self, n=-1):
        self._point()
        return self.f.read(n)

    def readinto(self, b):
        self._point()
        return self.f.readinto(b)


def schedules(run, bound, limit):
    """All schedules with at most `bound` preemptions (switches away from a thread that could go on), up to `limit`.
    run(choose) executes one schedule and returns its trace of (enabled, chosen)."""
    stack, count = [()], 0
    while stack and count < limit:
        prefix = stack.pop()
        step = [0]

        def choose(enabled, cur):
            k = step[0]
            step[0] += 1
            if k < len(prefix) and prefix[k] in enabled:
                return prefix[k]
            return cur if cur is not None else enabled[0]

        trace = run(choose)
        count += 1
        if trace is None:
            return count
        used, cur = 0, None
        picks = [t[1] for t in trace]
        for k, (enabled, pick) in enumerate(trace):
            can = cur in enabled
            if k >= len(prefix):
                for alt in enabled:
                    if alt != pick and used + (1 if can and alt != cur else 0) <= bound:
                        stack.append(tuple(picks[:k]) + (alt,))
            used += 1 if can and pick != cur else 0
            cur = pick
    return count


def random_choice(rng):
    def choose(enabled, cur):
        if cur is not None and rng.random() < 0.4:
            return cur
        return rng.choice(enabled)

    return choose
