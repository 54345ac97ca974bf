"""Run a function in a child forked from the pristine zygote; result comes back pickled over a pipe."""
import gc, os, sys, pickle, select, signal, time, traceback, resource


monotonic = time.monotonic           # a simulated clock may take its place in the module


class ChildTimeout(Exception):
    pass


class ChildDied(Exception):
    pass


class HarnessError(Exception):
    """The simulator itself went wrong (never a verdict about the library)."""


MEM = 6 << 30


def _child(fn, w):
    gc.disable()                       # collections would run finalisers at points of their own choosing
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        except (ValueError, OSError):
            pass
        try:
            res = ("ok", fn())
        except BaseException:
            res = ("harness", traceback.format_exc())
        data = pickle.dumps(res, protocol=4)
        view = memoryview(data)
        while view:
            n = os.write(w, view)
            view = view[n:]
    except BaseException:
        pass
    finally:
        os._exit(0)


def forked(fn, timeout=60.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        sys.settrace(None)
        _child(fn, w)
    os.close(w)
    chunks, deadline = [], monotonic() + timeout
    try:
        while True:
            left = deadline - monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildTimeout("no answer within %gs" % timeout)
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        raise ChildDied("child ended without answer (status %r)" % status)
    kind, val = pickle.loads(data)
    if kind == "harness":
        raise HarnessError(val)
    return val
