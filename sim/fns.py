"""Caller-supplied functions, by name, so that cases stay plain JSON; every evaluation is a fault point."""
import math
import threading


class SimError(Exception):
    """An ordinary failure of a caller-supplied function."""


class SimAbort(BaseException):
    """An interrupt-style exception of the caller's own (like KeyboardInterrupt)."""


class SimQuit(SystemExit):
    pass


EXC = dict(SimError=SimError, SimAbort=SimAbort, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit,
           MemoryError=MemoryError, ValueError=ValueError, ZeroDivisionError=ZeroDivisionError,
           TimeoutError=TimeoutError, RuntimeError=RuntimeError, KeyError=KeyError, AssertionError=AssertionError,
           OverflowError=OverflowError, FloatingPointError=FloatingPointError, TypeError=TypeError,
           ArithmeticError=ArithmeticError, LookupError=LookupError, OSError=OSError, AttributeError=AttributeError,
           StopIteration=StopIteration, GeneratorExit=GeneratorExit, IndexError=IndexError, RecursionError=RecursionError,
           NotImplementedError=NotImplementedError, EOFError=EOFError)
INTERRUPTS = ("KeyboardInterrupt", "SystemExit", "SimAbort", "GeneratorExit")


class Control(threading.local):
    """Counts evaluations of caller-supplied functions and fires at the armed one."""
    def __init__(self):
        self.total = 0
        self.disarm()

    def arm(self, at, exc=None, hook=None):
        self.n, self.at, self.exc, self.hook, self.fired, self.active = 0, at, exc, hook, 0, True

    def disarm(self):
        self.n, self.at, self.exc, self.hook, self.fired, self.active = 0, 0, None, None, 0, False

    def tick(self):
        self.total += 1
        if not self.active:
            return
        self.n += 1
        if self.n == self.at:
            self.fired += 1
            if self.hook is not None:
                hook, self.active = self.hook, False      # a nested query is not itself nested into
                try:
                    hook()
                finally:
                    self.active = True
            if self.exc is not None:
                raise EXC[self.exc]("injected at evaluation %d" % self.at)


CTL = Control()
_A, _B, _C = 0.00022, 2.7e-6, 1.124


def _mk_S(A, B, c):
    return lambda x, s, t: math.exp(-A * t - B * c ** min(x + s, 2000) * (c ** min(t, 2000) - 1) / math.log(c))


def _f_unif(w):
    return lambda x, s, t: (1.0 / (w - x - s)) if x + s + t <= w else 0.0


def _S_unif(w):
    return lambda x, s, t: max(0.0, (w - x - s - t) / (w - x - s)) if x + s < w else 0.0


def _cum(m, x, s, t):
    """Cumulative force over (s, s+t] after selection at x, light at first: a survival that depends on x and s apart."""
    return m * (1 + 0.01 * x) * (t - 0.5 * (math.exp(-s) - math.exp(-s - t)))


def _raise(exc):
    def f(*a):
        raise EXC[exc]("always fails")
    return f


MAKERS = dict(
    S_exp=lambda mu: (lambda x, s, t: math.exp(-mu * t)),
    S_unif=_S_unif,
    S_mk=_mk_S,
    S_sel=lambda m: (lambda x, s, t: math.exp(-_cum(m, x, s, t))),
    l_sel=lambda m: (lambda x, s: 1000.0 * math.exp(-m * x - _cum(m, x, 0, s))),
    mu_sel=lambda m: (lambda x, t: m * (1 + 0.01 * x) * (1 - 0.5 * math.exp(-t))),
    S2=lambda mu: (lambda x, t: math.exp(-mu * t)),                 # two-argument form used by SULT(S=...)
    l_unif=lambda w: (lambda x, s: max(0.0, float(w - x - s))),
    l_exp=lambda mu: (lambda x, s: 1000.0 * math.exp(-mu * (x + s))),
    mu_const=lambda mu: (lambda x, t: mu),
    mu_mk=lambda A, B, c: (lambda x, t: A + B * c ** min(x + t, 2000)),
    f_exp=lambda mu: (lambda x, s, t: mu * math.exp(-mu * t)),
    f_unif=_f_unif,
    l_mk=lambda A, B, c: (lambda x, s: 1000.0 * math.exp(-A * (x + s) - B * (c ** min(x + s, 2000) - 1) / math.log(c))),
    f_mk=lambda A, B, c: (lambda x, s, t: _mk_S(A, B, c)(x, s, t) * (A + B * c ** min(x + s + t, 2000))),
    f_sel=lambda m: (lambda x, s, t: math.exp(-_cum(m, x, s, t)) * m * (1 + 0.01 * x) * (1 - 0.5 * math.exp(-s - t))),
    v_pow=lambda i: (lambda t: (1.0 + i) ** -t),
    v_step=lambda i, j, n: (lambda t: (1.0 + i) ** -t if t <= n else (1.0 + i) ** -n * (1.0 + j) ** -(t - n)),
    v_lin=lambda k: (lambda t: 1.0 / (1.0 + k * t)),
    v_bad=lambda c: (lambda t: c),
    b_const=lambda b: (lambda x, t: b),
    b_lin=lambda a, b: (lambda x, t: a + b * t),
    b_exp=lambda g: (lambda x, t: math.exp(g * t)),
    b_cut=lambda b, n: (lambda x, t: b if t <= n else 2.0 * b),
    b_age=lambda a, b: (lambda x, t: a + b * (x + t)),
    b1_const=lambda b: (lambda t: b),
    b1_lin=lambda a, b: (lambda t: a + b * t),
    S2u=lambda w: (lambda x, t: max(0.0, (w - x - t) / (w - x))),
    mu2=lambda m: (lambda x, s: m * (1 + 0.01 * (x + s))),
    fail=_raise,
)


def make(name, *params):
    inner = MAKERS[name](*params)

    def fn(*args, **kw):
        CTL.tick()
        return inner(*args, **kw)
    fn.sim_name = name
    return fn
