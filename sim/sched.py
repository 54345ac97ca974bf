"""Deterministic scheduler for real threads.

Every simulated thread is a real thread that runs only while it holds the token.  Inside library frames every line
(or bytecode) is a scheduling point; at the points named by the schedule the token moves to another thread.  The
schedule is either drawn from a seed (and recorded) or an explicit list of [tick, thread] pairs, which is the replay
and minimisation format.
"""
import random, sys, threading, time
from .ticks import is_lib

STALL = 4.0          # seconds without a tick before a thread is taken to be blocked on a lock
DEAD = 30.0
DEEP = 150           # nested library calls a traced thread may reach


class Gate:
    """A binary semaphore that runs no Python code while blocking (so nothing can be traced or collected inside it)."""
    def __init__(self):
        import _thread
        self._lock = _thread.allocate_lock()
        self._lock.acquire()
        self.acquire, self.release = self._lock.acquire, self._lock.release


class Scheduler:
    def __init__(self, n, seed=None, gap=None, preempt=None, grain="line", limit=4000000):
        self.n, self.grain, self.limit = n, grain, limit
        self.rng = random.Random(seed)
        self.gap, self.preempt = gap, [list(p) for p in preempt] if preempt is not None else None
        self.ticks, self.current = 0, None
        self.lock = threading.Lock()
        self.go = [Gate() for _ in range(n)]
        self.busy = [False] * n
        self.alive = set(range(n))
        self.blocked = set()
        self.taken = []                 # preemptions that happened: [tick, thread]
        self.next = None
        self.idle = threading.Event()
        self.deadlock = False
        self.first = 0
        if self.preempt is None:
            self.first = self.rng.randrange(n)
        elif self.preempt and self.preempt[0][0] == 0:
            self.first = min(n - 1, self.preempt.pop(0)[1])
        self.taken.append([0, self.first])
        self._plan()

    def _plan(self):
        if self.preempt is not None:
            self.next = self.preempt[0][0] if self.preempt else None
        else:
            self.next = self.ticks + 1 + int(self.rng.expovariate(1.0 / (self.gap * 2 ** (len(self.taken) // 3000)))) if self.gap else None

    def _pick(self, me, wanted=None):
        others = sorted((self.alive - self.blocked) - {me})
        if not others:
            return None
        if wanted is not None:
            return wanted if wanted in others else None
        return self.rng.choice(others) if self.preempt is None else others[0]

    def tick(self, me):
        if self.busy[me]:                            # a finaliser run by the scheduler's own code
            return
        self.busy[me] = True
        try:
            self._tick(me)
        finally:
            self.busy[me] = False

    def _tick(self, me):
        if self.current != me:                       # was taken for blocked and has come back: queue up again
            with self.lock:
                self.blocked.discard(me)
                wait = self.current is not None
                if not wait:
                    self.current = me
            if wait:
                self.go[me].acquire()
        self.ticks += 1
        if self.next is None or self.ticks < self.next:
            return
        to = None
        if self.preempt is not None:
            at, want = self.preempt.pop(0)
            to = self._pick(me, want)
        elif self.ticks < self.limit:
            to = self._pick(me)
        self._plan()
        if to is not None:
            self.taken.append([self.ticks, to])
            self._hand(to)
            self.go[me].acquire()

    def _hand(self, to):
        self.current = to
        self.go[to].release()

    def trace(self, me):
        depth = [0]

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.tick(me)
            elif event == "return":
                depth[0] -= 1
            return local

        def glob(frame, event, arg):
            if not is_lib(frame.f_code):
                return None
            depth[0] += 1
            if depth[0] > DEEP:                      # about to run out of stack: let it do so undisturbed.  CPython 3.12 crashes when a
                while frame:                         # frame traced by opcode outlives its thread's trace function, so reset every frame first
                    if is_lib(frame.f_code):
                        frame.f_trace_opcodes = False
                    frame = frame.f_back
                sys.settrace(None)
                return None
            if self.grain == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob

    def _body(self, me, fn):
        self.go[me].acquire()
        sys.settrace(self.trace(me))
        try:
            fn()
        finally:
            sys.settrace(None)
            with self.lock:
                self.alive.discard(me)
                self.blocked.discard(me)
                if self.current == me or self.current is None:
                    to = self._pick(me)
                    if to is not None:
                        self._hand(to)
                    else:
                        self.current = None
                        if not self.alive:
                            self.idle.set()
                elif not self.alive:
                    self.idle.set()

    def run(self, fns):
        threads = [threading.Thread(target=self._body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in threads:
            t.start()
        self._hand(self.first)
        last, since = -1, time.monotonic()
        while not self.idle.wait(0.2):
            now = time.monotonic()
            if self.ticks != last:
                last, since = self.ticks, now
                continue
            if now - since > STALL:
                with self.lock:
                    me = self.current
                    if me is not None:
                        self.blocked.add(me)
                    to = self._pick(me)
                    if to is not None:
                        self.taken.append([self.ticks, to])
                        self._hand(to)
                        since = now
                    else:
                        self.current = None
            if now - since > DEAD:
                self.deadlock = True
                return
        for t in threads:
            t.join()
