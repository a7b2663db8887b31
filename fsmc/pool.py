"""A controlled stand-in for multiprocessing.Pool, and the exploration of all its schedules.

The stand-in forks the same number of worker processes, runs the initializer in each of them and hands chunks of tasks
to idle workers in submission order, exactly as multiprocessing does. What the operating system decides in reality (which
of the busy workers finishes next) is decided here by a Scheduler, so that every order can be enumerated. Tasks are
pickled and executed inside the forked workers; shared memory stays shared.
"""
import contextlib
import multiprocessing
import multiprocessing.pool
import os
import pickle
import struct
import sys


class Scheduler:
    """Replays a prefix of choices, then always takes the first option; records the options met."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []                     # (choice, number of options)

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c


def explore(run, bound=None, limit=None):
    """Depth-first enumeration of all schedules of run(scheduler); `bound` limits the non-default choices.

    Yields (choices, result). Every schedule within the bound is executed exactly once.
    """
    stack = [()]
    done = 0
    while stack:
        prefix = stack.pop()
        s = Scheduler(prefix)
        res = run(s)
        choices = tuple(c for c, _ in s.trace)
        yield choices, res
        done += 1
        if limit is not None and done >= limit:
            return
        for i in range(len(s.trace) - 1, len(prefix) - 1, -1):
            used = sum(1 for c in choices[:i] if c)
            if bound is not None and used >= bound:
                continue
            for c in range(s.trace[i][1] - 1, 0, -1):
                stack.append(choices[:i] + (c,))


CURRENT = [None]
STATS = {"pools": 0, "tasks": 0}


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError("worker died")
        out += b
    return out


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<q", _read(fd, 8))[0]))


class _Worker:
    def __init__(self, initializer, initargs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                import signal
                signal.alarm(0)
                os.close(w1)
                os.close(r2)
                err = None
                try:
                    if initializer is not None:
                        initializer(*initargs)
                except Exception as e:        # noqa: BLE001
                    err = e
                while True:
                    try:
                        job = _recv(r1)
                    except EOFError:
                        break
                    if job is None:
                        break
                    out = []
                    func, argl, star = job
                    for a in argl:
                        try:
                            if err is not None:
                                raise err
                            out.append((True, func(*a[0], **a[1]) if star == "apply" else func(*a) if star else func(a)))
                        except Exception as e:        # noqa: BLE001
                            out.append((False, RuntimeError(f"{type(e).__name__}: {e}")))
                    _send(w2, out)
            except BaseException:        # noqa: BLE001
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def run(self, job):
        _send(self.w, job)
        return _recv(self.r)

    def close(self):
        if self.pid is None:
            return
        with contextlib.suppress(OSError):
            _send(self.w, None)          # later siblings hold copies of the pipe: no end of file
        for fd in (self.w, self.r):
            with contextlib.suppress(OSError):
                os.close(fd)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(self.pid, 0)
        self.pid = None


class _Result:
    def __init__(self, value):
        self._v = value

    def get(self, timeout=None):
        ok, v = self._v
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._v[0]


class ControlledPool:
    MAX = 4

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = self.MAX
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._n = processes
        self._args = (initializer, tuple(initargs))
        self._workers = [_Worker(*self._args) for _ in range(min(processes, 6))]
        self._state = "RUN"
        STATS["pools"] += 1

    # -- scheduling ---------------------------------------------------------------
    def _schedule(self, func, tasks, chunksize, star):
        """Returns (results in task order, indices in completion order)."""
        if self._state != "RUN":
            raise ValueError("Pool not running")
        tasks = list(tasks)
        if chunksize is None:
            chunksize, extra = divmod(len(tasks), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(int(chunksize), 1)
        chunks = [list(range(i, min(i + chunksize, len(tasks)))) for i in range(0, len(tasks), chunksize)]
        results, order = {}, []
        pending = list(range(len(chunks)))
        busy = []
        for w in self._workers:
            if pending:
                busy.append((w, pending.pop(0)))
        sched = CURRENT[0]
        while busy:
            i = sched.choose(len(busy)) if sched is not None and len(busy) > 1 else 0
            w, c = busy[i]
            out = w.run((func, [tasks[k] for k in chunks[c]], star))
            for k, o in zip(chunks[c], out):
                results[k] = o
                order.append(k)
                STATS["tasks"] += 1
            if pending:
                busy[i] = (w, pending.pop(0))
            else:
                del busy[i]
        return [results[k] for k in range(len(tasks))], order

    @staticmethod
    def _unwrap(results):
        for ok, v in results:
            if not ok:
                raise v
        return [v for _, v in results]

    # -- interface of multiprocessing.Pool -------------------------------------------
    def map(self, func, iterable, chunksize=None):
        return self._unwrap(self._schedule(func, iterable, chunksize, False)[0])

    def starmap(self, func, iterable, chunksize=None):
        return self._unwrap(self._schedule(func, iterable, chunksize, True)[0])

    def _async(self, func, iterable, chunksize, star, callback, error_callback):
        try:
            v = self._unwrap(self._schedule(func, iterable, chunksize, star)[0])
        except RuntimeError as e:
            if error_callback:
                error_callback(e)
            return _Result((False, e))
        if callback:
            callback(v)
        return _Result((True, v))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, iterable, chunksize, False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, iterable, chunksize, True, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        res, order = self._schedule(func, iterable, chunksize, False)
        self._unwrap(res)
        return iter([res[k][1] for k in order])

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        # single tasks: the scheduler decides which worker takes it
        sched = CURRENT[0]
        i = sched.choose(len(self._workers)) if sched is not None and len(self._workers) > 1 else 0
        (r,) = self._workers[i].run((func, [(tuple(args), dict(kwds))], "apply"))
        STATS["tasks"] += 1
        if r[0] and callback:
            callback(r[1])
        if not r[0] and error_callback:
            error_callback(r[1])
        return _Result(r)

    def close(self):
        self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        for w in self._workers:
            w.close()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        for w in self._workers:
            w.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __del__(self):
        with contextlib.suppress(Exception):
            self.terminate()


@contextlib.contextmanager
def controlled(scheduler, *modules):
    """Inside this block every multiprocessing pool is a ControlledPool driven by `scheduler`."""
    real = multiprocessing.pool.Pool
    ctx_pool = {multiprocessing.Pool}
    saved = []
    old = CURRENT[0]
    CURRENT[0] = scheduler
    multiprocessing.pool.Pool = ControlledPool
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is real or (callable(v) and any(v == c for c in ctx_pool)):
                saved.append((m, k, v))
                setattr(m, k, ControlledPool)
    try:
        yield
    finally:
        multiprocessing.pool.Pool = real
        for m, k, v in saved:
            setattr(m, k, v)
        CURRENT[0] = old
