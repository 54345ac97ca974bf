"""Logical clock of the simulation: one tick per executed line (or bytecode) of library code.

Also the seam for asynchronous faults: an exception delivered at a chosen tick, exactly as a signal handler or a
failing allocation would deliver it at that point of the program.
"""
import sys
from . import env
from .fns import EXC

_is_lib = {}


def is_lib(code):
    r = _is_lib.get(code)
    if r is None:
        r = _is_lib[code] = code.co_filename.startswith(env.LIB)
    return r


class Ticker:
    def __init__(self, at=0, exc=None, grain="line", locs=None):
        self.at, self.exc, self.grain, self.locs = at, exc, grain, locs
        self.n = 0
        self.fired = None
        self.over = False

    def _global(self, frame, event, arg):
        if not is_lib(frame.f_code):
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.n += 1
            if self.locs is not None:                    # first and last tick of every place in the code
                self.locs.setdefault((frame.f_code, frame.f_lineno if self.grain == "line" else frame.f_lasti), [self.n, 0])[1] = self.n
            if self.n == self.at and self.exc:
                self.fired = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                raise EXC[self.exc]("injected at tick %d" % self.at)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Budget:
    """Bounds the number of library function calls made inside the block (a step bound that is the same on every run)."""
    def __init__(self, calls):
        self.calls, self.n, self.over = calls, 0, False

    def _start(self, code, offset):
        if not is_lib(code):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.calls:
            self.over = True
            raise EXC["SimAbort"]("step bound reached")

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "sim")
        m.register_callback(m.PROFILER_ID, m.events.PY_START, self._start)
        m.set_events(m.PROFILER_ID, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.register_callback(m.PROFILER_ID, m.events.PY_START, None)
        m.free_tool_id(m.PROFILER_ID)
        m.restart_events()
        return False
