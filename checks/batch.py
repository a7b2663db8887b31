"""Runs the command line scripts in-process: every order of the workers' tasks, and a crash before every file operation.

A script is executed as `python -m flowstab.scripts.X` would (runpy, run_name "__main__"), with its process pools replaced
by stand-ins that execute the tasks in an order chosen by the check. A crash is a BaseException raised by an audit hook at
the n-th operation that creates, renames or deletes a file below the watched directory, so that everything before it is on
disk and nothing after it: exactly what a killed job leaves.
"""
import concurrent.futures
import contextlib
import io
import multiprocessing
import multiprocessing.pool
import os
import runpy
import shutil
import sys
import tempfile
import warnings

from fsmc.core import expect
from fsmc.pool import _Result


class Crash(BaseException):
    pass


_watch = dict(root=None, left=None, seen=0, log=None)


def _hook(event, args):
    root = _watch["root"]
    if root is None:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, str):
            return
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
            (not isinstance(mode, str) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if not w:
            return
    elif event in ("os.rename", "os.remove", "os.link"):
        path = args[0]
    else:
        return
    if not (isinstance(path, str) and os.path.abspath(path).startswith(root)):
        return
    if _watch["left"] is not None:
        if _watch["left"] == 0:
            raise Crash(path)
        _watch["left"] -= 1
    _watch["seen"] += 1
    _watch["log"].append(("" if event == "open" else event + " ") + os.path.basename(path))


_installed = []


class _Sequence:
    """The pool of one run: tasks of the outermost pool are executed in the chosen order, in this process."""

    def __init__(self, order):
        self.order = order
        self.depth = 0
        self.ntasks = 0

    def run(self, func, tasks, star=False):
        tasks = list(tasks)
        idx = list(range(len(tasks)))
        if self.depth == 0:
            self.ntasks += len(tasks)
            if self.order is not None:
                idx = [i for i in self.order if i < len(tasks)]
                idx += [i for i in range(len(tasks)) if i not in idx]
        out = [None] * len(tasks)
        self.depth += 1
        try:
            for i in idx:
                out[i] = func(*tasks[i]) if star else func(tasks[i])
        finally:
            self.depth -= 1
        return out


_seq = [None]


class InlinePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        expect(processes is None or processes >= 1, f"pool of {processes} processes")
        if initializer is not None:
            initializer(*initargs)

    def map(self, func, iterable, chunksize=None):
        return _seq[0].run(func, iterable)

    def starmap(self, func, iterable, chunksize=None):
        return _seq[0].run(func, iterable, True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Result((True, self.map(func, iterable)))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Result((True, self.starmap(func, iterable)))

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    imap_unordered = imap

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Result((True, _seq[0].run(lambda a: func(*a, **kwds), [args])[0]))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


class InlineExecutor:
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        expect(max_workers is None or max_workers >= 1, f"executor of {max_workers} workers")
        if initializer is not None:
            initializer(*initargs)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(_seq[0].run(fn, list(zip(*iterables)), True))

    def submit(self, fn, *args, **kw):
        f = concurrent.futures.Future()
        f.set_result(_seq[0].run(lambda a: fn(*a, **kw), [args])[0])
        return f

    def shutdown(self, wait=True, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


class Run:
    def __init__(self):
        self.crashed = False
        self.writes = 0
        self.log = []
        self.out = ""
        self.ntasks = 0


def run_script(name, argv, root, order=None, crash=None, urandom=None):
    """One execution of flowstab.scripts.<name>; crash=n stops it before the n-th file operation below root."""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    r = Run()
    buf = io.StringIO()
    saved = (sys.argv, multiprocessing.pool.Pool, multiprocessing.Pool, concurrent.futures.ProcessPoolExecutor,
             concurrent.futures.process.ProcessPoolExecutor, os.urandom)
    _seq[0] = _Sequence(order)
    sys.argv = [name] + [str(a) for a in argv]
    multiprocessing.pool.Pool = InlinePool
    multiprocessing.Pool = InlinePool
    concurrent.futures.ProcessPoolExecutor = InlineExecutor
    concurrent.futures.process.ProcessPoolExecutor = InlineExecutor
    if urandom is not None:
        os.urandom = urandom
    _watch.update(root=os.path.abspath(root) + os.sep, left=crash, seen=0, log=r.log)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module(f"flowstab.scripts.{name}", run_name="__main__")
    except Crash:
        r.crashed = True
    except SystemExit as e:
        expect(e.code in (None, 0), f"{name} {argv} exits with {e.code}\n{buf.getvalue()[-2000:]}")
    finally:
        _watch["root"] = None
        (sys.argv, multiprocessing.pool.Pool, multiprocessing.Pool, concurrent.futures.ProcessPoolExecutor,
         concurrent.futures.process.ProcessPoolExecutor, os.urandom) = saved
        r.ntasks = _seq[0].ntasks
        _seq[0] = None
    r.writes = _watch["seen"]
    r.out = buf.getvalue()
    return r


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="fsb_", dir=os.environ.get("FSMC_SCRATCH"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def points(log, tier="thorough"):
    """The crash points of a run; quick: what a crash before the renaming of a finished temporary file leaves differs from
    what a crash before its creation leaves by the temporary file only (crashes there: C30)."""
    return [c for c, op in enumerate(log) if tier != "quick" or not (op.startswith("os.rename") and op.endswith(".tmp"))]


def finished(d):
    """Names of the files of a directory, without those whose names mark them as unfinished (left by a killed run)."""
    return [f for f in os.listdir(d) if not f.endswith(".tmp")]


def errors(out):
    """The part of a run's output that reports exceptions."""
    i = out.find("Traceback")
    return out[max(0, i - 300):][:3000] if i >= 0 else out[-1500:]
