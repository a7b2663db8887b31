"""C19: all matrix-exponential strategies give the same matrix, under every worker schedule."""
import itertools

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from fsmc import pool, ref
from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from flowstab import parallel_expm as pe
from flowstab import temporal_network as tn

PROPERTY = "C19"
RULE = ("every labelled undirected graph up to 5 nodes (component-wise strategy, all options) and up to 4 nodes (column-wise and "
        "parallel component-wise strategies under every order in which 2 or 3 workers finish), and graphs with more than 1000 nodes "
        "(small components in scrambled labellings, one component of 1000 nodes) within 1 deviation from first-come-first-served, "
        "compared with the spectral exponential")
ASSUMPTIONS = ["worker tasks are atomic with respect to each other (they only read the shared arrays)",
               "the pool hands tasks to idle workers in submission order, as multiprocessing does",
               "entries closer than 1e-9 to the trimming threshold may go either way"]
CHUNK = 8
CASE_TIMEOUT = 300
FACTS = [0.4, 3.0]


def graph(n, code):
    A = np.zeros((n, n))
    for b, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        if code >> b & 1:
            A[i, j] = A[j, i] = 1
    return A


def big_graph(kind):
    """More than 1000 non-isolated nodes."""
    if kind == "small-comps":           # components of 2 to 6 nodes, labels scattered by a fixed stride
        n = 1010
        perm = [(i * 377) % n for i in range(n)]
        A = np.zeros((n, n))
        i, k = 0, 0
        while i < n:
            size = min(2 + k % 5, n - i)
            if n - i - size == 1:
                size += 1
            for a in range(size):
                for b in range(a + 1, size):
                    if b == a + 1 or (a * b + k) % 3 == 0:
                        A[perm[i + a], perm[i + b]] = A[perm[i + b], perm[i + a]] = 1
            i += size
            k += 1
        return A
    if kind == "one-comp":              # connected, 1000 nodes: no component-wise computation
        n = 1001
    else:                               # "large+small": a ring of 1000 nodes and three small components, interleaved
        n = 1011
    A = np.zeros((n, n))
    perm = [(i * 377) % n for i in range(n)]
    for i in range(1000):
        A[perm[i], perm[(i + 1) % 1000]] = A[perm[(i + 1) % 1000], perm[i]] = 1
    if kind == "large+small":
        for a, b in ((1000, 1001), (1002, 1003), (1003, 1004), (1005, 1006), (1006, 1007), (1007, 1005), (1007, 1008), (1008, 1009)):
            A[perm[a], perm[b]] = A[perm[b], perm[a]] = 1
    return A


def cases(tier):
    for n in (1, 2, 3, 4):
        for code in range(1 << (n * (n - 1) // 2)):
            yield dict(kind="graph", n=n, code=code)
    for n in (2, 3, 4):
        for code in range(1 << (n * (n - 1) // 2)):
            for nproc in (2, 3) if n < 4 or tier == "thorough" else (2,):
                yield dict(kind="columns", n=n, code=code, nproc=nproc)
                yield dict(kind="parallel", n=n, code=code, nproc=nproc)
    if tier != "thorough":
        for code in (0, 1, 0b1101, 0b101101, 63):
            for kind in ("columns", "parallel"):
                yield dict(kind=kind, n=4, code=code, nproc=3)
    yield dict(kind="big", graph="large+small", nproc=1)
    for first in range(0, 8):
        yield dict(kind="big", graph="small-comps", nproc=2, dev=first)
    yield dict(kind="big", graph="small-comps", nproc=1)
    yield dict(kind="big", graph="one-comp", nproc=1)
    yield dict(kind="bigpar", graph="large+small")
    yield dict(kind="real")
    for code in range(1 << 10):
        yield dict(kind="graph", n=5, code=code)
    if tier == "thorough":
        for code in range(1 << 10):
            yield dict(kind="parallel", n=5, code=code, nproc=2)
            if code % 8 == 5:
                yield dict(kind="columns", n=5, code=code, nproc=2)


def trimmed(E, ratio, axis=None):
    """(reference with small entries removed, mask of entries too close to the threshold)."""
    if ratio is None:
        return E, np.zeros(E.shape, bool)
    m = E.max(axis=0, keepdims=True) if axis == 0 else E.max()
    thr = m / ratio
    return np.where(E < thr, 0.0, E), np.abs(E - thr) < 1e-9 * np.maximum(thr, 1e-12)


def compare(got, E, ratio, norm, axis, what):
    want, unsure = trimmed(E, ratio, axis)
    got = dense(got)
    if unsure.any():
        # take the decision of the code for entries on the threshold
        want = np.where(unsure, np.where(got == 0, 0.0, E), want)
    if norm:
        rs = want.sum(1, keepdims=True)
        want = want / np.where(rs == 0, 1.0, rs)          # a row that is trimmed completely stays empty
    expect_close(got, want, what, tol=1e-9)


def lapl(A, fmt=csc_matrix):
    return fmt(ref.rw_laplacian(A))


def check(case, ctx):
    kind = case["kind"]
    if kind == "graph":
        _graph(case, ctx)
    elif kind == "columns":
        _columns(case, ctx)
    elif kind == "parallel":
        _parallel(case, ctx)
    elif kind in ("big", "bigpar"):
        _big(case, ctx)
    else:
        _real(ctx)


def _graph(case, ctx):
    A = graph(case["n"], case["code"])
    L = ref.rw_laplacian(A)
    n = case["n"]
    ctx.state(repr((n, case["code"])))
    lab = np.array(ref.components(A), dtype=np.int32)
    for x in FACTS:
        E = ref.expm_rw(L, x)
        ctx.outcome(canon_array(E))
        for ratio, norm, given in itertools.product((None, 1.5, 8.0, 1e3), (True, False), (False, True)):
            if n == 5 and (given or ratio == 8.0) and case["code"] % 4:
                continue
            M = csc_matrix(-x * L)
            kw = dict(n_comp=int(lab.max()) + 1, comp_labels=lab.copy()) if given else {}
            got = tn.compute_subspace_expm(M, thresh_ratio=ratio, normalize_rows=norm, **kw)
            what = f"component-wise exponential of graph {case} x={x} thresh_ratio={ratio} normalize={norm} given components={given}"
            expect_valid_csr(got, what)
            compare(got, E, ratio, norm, None, what)
            expect_close(M, -x * L, what + ": argument changed", tol=0)
            ctx.step()
        for dense_expm in (True, False):
            for nproc in (1, 2):
                Lc = csc_matrix(L)
                got = tn.sparse_lapl_expm(Lc, x, dense_expm=dense_expm, nproc=nproc)
                expect_close(got, E, f"sparse_lapl_expm of graph {case} x={x} dense_expm={dense_expm} nproc={nproc}", tol=1e-9)
                expect(got.shape == (n, n) if hasattr(got, "shape") else True, "shape")
                expect_close(Lc, L, "sparse_lapl_expm changed the Laplacian", tol=0)
                ctx.step()
    ctx.trace()


def _columns(case, ctx):
    A = graph(case["n"], case["code"])
    L = ref.rw_laplacian(A)
    x, ratio, norm = [(0.4, None, True), (3.0, 4.0, True), (0.4, 3.0, False), (3.0, None, False)][case["code"] % 4]
    E = ref.expm_rw(L, x)
    fmt = csr_matrix if case["code"] % 3 == 1 else csc_matrix

    def run(s):
        with pool.controlled(s, pe, tn):
            return pe.compute_parallel_expm(fmt(-x * L), nproc=case["nproc"], thresh_ratio=ratio, normalize_rows=norm, verbose=False)

    for choices, got in pool.explore(run):
        what = f"column-wise exponential of graph {case} x={x} thresh_ratio={ratio} normalize={norm} schedule={choices}"
        expect_valid_csr(got, what)
        compare(got, E, ratio, norm, 0, what)
        ctx.step(case["n"])
        ctx.trace()
        ctx.count("schedules")
        ctx.state(repr((case, choices)))
        ctx.outcome(canon_array(dense(got)))


def _parallel(case, ctx):
    A = graph(case["n"], case["code"])
    L = ref.rw_laplacian(A)
    n = case["n"]
    x, ratio, norm, given = [(0.4, None, True, False), (3.0, 4.0, True, True), (0.4, 3.0, False, False), (3.0, None, False, True),
                             (0.4, 2.0, True, True)][case["code"] % 5]
    E = ref.expm_rw(L, x)
    lab = np.array(ref.components(A), dtype=np.int32)
    kw = dict(n_comp=int(lab.max()) + 1, comp_labels=lab) if given else {}

    def run(s):
        with pool.controlled(s, pe, tn):
            return pe.compute_subspace_expm_parallel(csc_matrix(-x * L), nproc=case["nproc"], thresh_ratio=ratio, normalize_rows=norm, **kw)

    for choices, got in pool.explore(run):
        what = f"parallel component-wise exponential of graph {case} x={x} thresh_ratio={ratio} normalize={norm} schedule={choices}"
        expect_valid_csr(got, what)
        compare(got, E, ratio, norm, None, what)
        ctx.step(n)
        ctx.trace()
        ctx.count("schedules")
        ctx.state(repr((case, choices)))
        ctx.outcome(canon_array(dense(got)))


def _big(case, ctx):
    A = big_graph(case["graph"])
    L = ref.rw_laplacian(A)
    x = 1.3
    E = ref.expm_rw(L, x)
    Lc = csc_matrix(L)
    if case["kind"] == "bigpar":
        # component of 1000 nodes column by column, small ones in parallel
        with pool.controlled(pool.Scheduler(), pe, tn):
            got = tn.sparse_lapl_expm(Lc, x, dense_expm=False, nproc=4)
        expect_close(got, E, "parallel exponential of a ring of 1000 nodes and small components", tol=1e-8)
        ctx.step(1004)
        ctx.trace()
        ctx.state(repr(case))
        return
    if case["nproc"] == 1:
        for ratio, norm in ((None, True), (1e4, True), (50.0, False)) if case["graph"] == "small-comps" else ((None, True),):
            got = tn.sparse_lapl_expm(Lc.copy(), x, dense_expm=False, nproc=1, thresh_ratio=ratio, normalize_rows=norm)
            compare(got, E, ratio, norm, None, f"exponential of {case} thresh_ratio={ratio} normalize={norm}")
            ctx.step()
        ctx.trace()
        ctx.state(repr(case))
        return

    def run(s):
        with pool.controlled(s, pe, tn):
            return tn.sparse_lapl_expm(Lc.copy(), x, dense_expm=False, nproc=2)

    # one deviation from first-come-first-served, at step `dev` (0: none)
    s = pool.Scheduler([0] * (case["dev"] - 1) + [1] if case["dev"] else [])
    got = run(s)
    expect_close(got, E, f"parallel exponential of {case}, schedule {s.trace}", tol=1e-9)
    ctx.step(len(s.trace))
    ctx.trace()
    ctx.count("schedules")
    ctx.state(repr((case, tuple(s.trace))))
    ctx.outcome(canon_array(dense(got).sum(1)[:5]))


def _real(ctx):
    """The pool of multiprocessing itself (conformance of the stand-in)."""
    for code in (0b101101, 0b1, 0b110011):
        A = graph(4, code)
        L = ref.rw_laplacian(A)
        E = ref.expm_rw(L, 0.7)
        got = pe.compute_parallel_expm(csc_matrix(-0.7 * L), nproc=2, verbose=False)
        expect_close(got, E, f"compute_parallel_expm with a real pool, graph {code}", tol=1e-9)
        got = pe.compute_subspace_expm_parallel(csc_matrix(-0.7 * L), nproc=2)
        expect_close(got, E, f"compute_subspace_expm_parallel with a real pool, graph {code}", tol=1e-9)
        ctx.step(2)
        ctx.trace(2)
