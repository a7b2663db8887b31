"""Shared machinery of the bounded exhaustive checks.

A check module (checks/cNN.py) provides

    PROPERTY, RULE, ASSUMPTIONS      strings / list of strings
    cases(tier)                      generator of JSON-able case descriptors; it
                                     enumerates the whole bounded space, simplest
                                     first, with no random choice anywhere
    check(case, ctx)                 executes the real code on one case, compares
                                     it with the reference, raises Violation

Cases are distributed over forked workers; every case is executed exactly once.
"""
from __future__ import annotations

import hashlib
import itertools
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

PROPERTY_TIME_BUDGET = {"quick": 600.0, "thorough": 3 * 3600.0}
CASE_TIMEOUT = 150          # seconds; ordinary cases take milliseconds


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class CaseTimeout(BaseException):
    pass


def h64(obj) -> int:
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "little")


def canon_array(a, nd=9):
    """Canonical bytes for a numeric array (rounded, -0.0 removed)."""
    a = np.round(np.asarray(a, dtype=float), nd) + 0.0
    return repr(a.shape).encode() + a.tobytes()


class Ctx:
    """Counters of one worker; merged by the parent."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.known = {}
        self.samples = []
        self.extra = {}

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def dump(self):
        return dict(states=list(self.states), outcomes=list(self.outcomes),
                    transitions=self.transitions, traces=self.traces,
                    known=self.known, samples=self.samples, extra=self.extra)


def expect(cond, msg, sig=None):
    if not cond:
        raise Violation(msg, sig)


def dense(M):
    """Dense ndarray of anything matrix-like the library produces."""
    if hasattr(M, "to_full_mat"):
        M = M.to_full_mat()
    if hasattr(M, "toarray"):
        M = M.toarray()
    return np.asarray(M, dtype=float)


def expect_close(a, b, what, tol=1e-9, sig=None):
    a = dense(a)
    b = dense(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}", sig)
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        err = np.abs(a - b)
        bad = ~(err <= tol * np.maximum(1.0, np.abs(b)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if a.ndim else ()
        raise Violation(f"{what}: entry {i} is {a[i]!r}, reference {b[i]!r}\n"
                        f"got:\n{a}\nreference:\n{b}", sig)


def expect_valid_csr(M, what):
    """Structural well-formedness of a CSR/CSC triple."""
    n_major = len(M.indptr) - 1
    ip = np.asarray(M.indptr)
    expect(ip[0] == 0 and (np.diff(ip) >= 0).all(), f"{what}: indptr not monotone {ip}")
    expect(ip[-1] <= len(M.indices) and len(M.indices) == len(M.data),
           f"{what}: inconsistent lengths")
    n_minor = M.shape[1] if n_major == M.shape[0] else M.shape[0]
    idx = np.asarray(M.indices[:ip[-1]])
    expect(idx.size == 0 or (idx.min() >= 0 and idx.max() < n_minor),
           f"{what}: index out of range {idx}")


# ---------------------------------------------------------------- exploration

def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """Returns None or (kind, message, signature)."""
    signal.signal(signal.SIGALRM, _alarm)
    tmo = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        mod.check(case, ctx)
        return None
    except Violation as e:
        return ("violation", str(e), e.sig)
    except CaseTimeout:
        return ("hang", f"no result within {tmo} s", None)
    except KeyboardInterrupt:
        raise
    except BaseException as e:     # the code under test raised where it must not
        return ("exception", f"{type(e).__name__}: {e}\n{traceback.format_exc()}", None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def match_known(known, prop, case, res):
    """Known findings are identified by property + exact case or signature."""
    for f in known:
        if f.get("property") != prop or f.get("status") != "known":
            continue
        if f.get("sig") is not None and f["sig"] == res[2]:
            return f
        if f.get("case") is not None and f["case"] == case:
            return f
    return None


def worker(mod, tier, counter, progress, slot, result_path, known, deadline):
    """Forked child: pulls chunks of the case stream until it is exhausted."""
    chunk = getattr(mod, "CHUNK", 4)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("FSMC_DEBUG"):
        os.dup2(devnull, 2)
    ctx = Ctx(tier)
    viols = []
    executed = 0
    exhausted = True

    def grab():
        with counter.get_lock():
            v = counter.value
            counter.value += 1
        return v

    mine = grab()
    for idx, case in enumerate(mod.cases(tier)):
        c = idx // chunk
        while c > mine:
            mine = grab()
        if c < mine:
            continue
        if time.time() > deadline or counter.value >= (1 << 60):
            exhausted = counter.value >= (1 << 60)
            break
        progress[2 * slot] = idx
        progress[2 * slot + 1] = int(time.time())
        res = run_case(mod, case, ctx)
        executed += 1
        if executed <= 2:
            ctx.samples.append(case)
        if res is not None:
            f = match_known(known, mod.PROPERTY, case, res)
            if f is not None:
                ctx.known[f["id"]] = ctx.known.get(f["id"], 0) + 1
                continue
            viols.append(dict(case=case, index=idx, kind=res[0], message=res[1], sig=res[2]))
            with counter.get_lock():
                counter.value = 1 << 60          # every worker stops at its next chunk
            break
    progress[2 * slot] = -1
    out = ctx.dump()
    out.update(rule=mod.RULE, assumptions=list(mod.ASSUMPTIONS), executed=executed, exhausted=exhausted, violations=viols)
    tmp = result_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, result_path)
    os._exit(0)
