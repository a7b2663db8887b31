"""C18: parallel clustering equals serial clustering under every worker schedule."""
import itertools
import os
from contextlib import contextmanager

import numpy as np
from scipy.sparse import csr_matrix

from checks.clusterfam import GRAPHS, graph_t, p_vec, signed_s, t_from_rows
from fsmc import pool, ref
from fsmc.core import canon_array, dense, expect
from flowstab import network_clustering as nc
from flowstab import parallel_clustering as pc
from flowstab.network_clustering import Clustering, SparseClustering, run_multi_louvain
from flowstab.sparse_stoch_mat import SparseAutocovMat, SparseStochMat

PROPERTY = "C18"
RULE = ("a bounded family of dense and sparse clusterings (asymmetric, given covariance, scalar probabilities, iteration limits), every "
        "number of repetitions up to 4 and processes up to 3, every order in which the workers finish, and every ordered pair of "
        "clusterings run one after the other in one process; each returned triple is compared with a serial run of its seed. "
        "Variation of information: all lists of up to 4 partitions of 3 nodes, every schedule")
ASSUMPTIONS = ["worker tasks are atomic with respect to each other (the shared arrays are only read)",
               "the pool hands tasks to idle workers in submission order, as multiprocessing does",
               "random seeds are drawn through os.urandom (made deterministic) or are left to the library"]
CHUNK = 2


@contextmanager
def fixed_urandom(start):
    """os.urandom counts, so that a run can be repeated."""
    old = os.urandom
    k = [start]

    def fake(n):
        k[0] += 1
        return (k[0] * 2654435761 % (1 << (8 * n))).to_bytes(n, "big")

    os.urandom = fake
    try:
        yield
    finally:
        os.urandom = old


def make(name):
    """Clusterings; the covariances have no ties unless the arithmetic is the same in the workers."""
    kind, spec = name.split(":")
    if kind in ("graph", "sgraph"):
        T, p = graph_t(spec)
        return Clustering(T=T, p1=p) if kind == "graph" else SparseClustering(T=csr_matrix(T), p1=p)
    rows = {"a": ((0, 1), (1, 2), (2, 0)), "b": ((0, 1), (1, 0), (2, 3), (3, 2)), "c": ((0, 2, 3), (1,), (2, 1), (3, 0)),
            "d": ((0, 1), (1, 2), (2, 3), (3, 4), (4, 0))}[spec]
    n = len(rows)
    T = t_from_rows(n, rows)
    p = p_vec(n, "v")
    if kind == "T":
        return Clustering(T=T, p1=p)
    if kind == "T2":
        return Clustering(T=T, p1=p, p2=p_vec(n, "v")[::-1].copy())
    if kind == "S":
        return Clustering(S=signed_s(n, 0b101101 * 7 % (1 << n)), T=T, p1=p)
    if kind == "SF":
        return Clustering(S=np.asfortranarray(signed_s(n, 0b101101 * 7 % (1 << n))), T=np.asfortranarray(T), p1=p)
    if kind == "Sonly":
        return Clustering(S=signed_s(n, 0b1101101101))
    if kind == "thr":
        return Clustering(T=T, p1=p, S_threshold=0.02)
    if kind == "sT":
        return SparseClustering(T=csr_matrix(T), p1=p)
    if kind == "sST":
        return SparseClustering(T=SparseStochMat.from_full_csr_matrix(csr_matrix(T)), p1=p)
    if kind == "sS":
        return SparseClustering(S=SparseAutocovMat(csr_matrix(T * p[:, None]), p, p[::-1].copy()))
    if kind == "sym":
        return SparseClustering(S=SparseAutocovMat.from_T_forward(csr_matrix(T), p1=p, p2=p @ T) if hasattr(SparseAutocovMat, "from_T_forward")
                                else SparseAutocovMat.from_T(csr_matrix(T), p))
    if kind == "scal":
        return SparseClustering(S=SparseAutocovMat(csr_matrix(T / n), 1 / n, 1 / n))
    raise ValueError(name)


NAMES = ["T:a", "T:b", "T:c", "T2:c", "S:c", "SF:c", "Sonly:b", "thr:d", "sT:a", "sT:c", "sST:b", "sS:c", "sym:d", "scal:b", "T:d", "sT:d",
         "graph:lollipop", "sgraph:lollipop", "graph:barbell6", "sgraph:barbell6"]
OPTS = [{}, dict(n_meta_iter_max=0), dict(n_sub_iter_max=2), dict(n_meta_iter_max=1, n_sub_iter_max=2)]


def cases(tier):
    for name in NAMES:
        for rep, nproc in [(1, 1), (2, 2), (3, 2), (3, 3), (2, 3), (4, 2)] + ([(5, 2), (4, 3), (4, 4), (6, 2)] if tier == "thorough" else []):
            for o in range(len(OPTS)) if rep == 3 or tier == "thorough" else (0,):
                yield dict(kind="clust", name=name, rep=rep, nproc=nproc, opts=o)
        yield dict(kind="serial", name=name)
    for a, b in itertools.product(NAMES, repeat=2):
        yield dict(kind="seq", names=[a, b])
    parts = len(list(ref.set_partitions(3)))
    for k in (2, 3):
        for idx in itertools.product(range(parts), repeat=k):
            yield dict(kind="nvi", n=3, idx=list(idx))
    for first in range(len(list(ref.set_partitions(4)))):
        yield dict(kind="nvi4", first=first)
    for name in ("T:c", "sT:c", "scal:b", "sgraph:barbell6"):
        yield dict(kind="real", name=name)
    if tier == "thorough":
        for idx in itertools.product(range(parts), repeat=4):
            yield dict(kind="nvi", n=3, idx=list(idx))
        for g in GRAPHS:
            for pre in ("graph", "sgraph"):
                yield dict(kind="clust", name=f"{pre}:{g}", rep=4, nproc=3, opts=0)


def serial(name, seed, opts, cache={}):
    key = (name, int(seed), repr(opts))
    if key not in cache:
        if len(cache) > 5000:
            cache.clear()
        c = make(name)
        c.find_louvain_clustering(rnd_seed=int(seed), **opts)
        cache[key] = (ref.canon_clusters(c.partition.cluster_list), float(c.compute_stability()))
    return cache[key]


def verify(res, name, rep, opts, what, ctx):
    expect(res is not None and len(res) == 3, f"{what}: returned {type(res)}")
    clusters, stabs, seeds = res
    expect(len(clusters) == len(stabs) == len(seeds) == rep, f"{what}: {len(clusters)} partitions, {len(stabs)} stabilities, {len(seeds)} seeds")
    expect(len({int(s) for s in seeds}) == rep, f"{what}: repeated seeds {seeds}")
    for cl, st, seed in zip(clusters, stabs, seeds):
        want, wst = serial(name, seed, opts)
        got = ref.canon_clusters(cl)
        expect(got == want, f"{what}: seed {seed} gave {got}, the serial run {want}")
        expect(abs(st - wst) <= 1e-10, f"{what}: seed {seed} stability {st}, the serial run {wst}")
        ctx.step()
        ctx.outcome(repr((name, got)))


def snapshot(c):
    return dense(c._S).copy(), dense(c.T).copy(), np.array(c.p1), np.array(c.p2), ref.canon_clusters(c.partition.cluster_list)


def same(a, b, what):
    for x, y in zip(a[:-1], b[:-1]):
        expect(np.array_equal(x, y), f"{what}: the clustering was modified")
    expect(a[-1] == b[-1], f"{what}: the partition of the clustering was modified")


def check(case, ctx):
    kind = case["kind"]
    if kind == "clust":
        opts = OPTS[case["opts"]]
        c = make(case["name"])
        before = snapshot(c)

        def run(s):
            with pool.controlled(s, pc, nc), fixed_urandom(case["rep"] * 31):
                return pc.compute_parallel_clustering(c, num_repeat=case["rep"], nproc=case["nproc"], verbose=False, **opts)

        for choices, res in pool.explore(run):
            what = f"{case} schedule {choices}"
            verify(res, case["name"], case["rep"], opts, what, ctx)
            ctx.state(repr((case, choices)))
            ctx.count("schedules")
            ctx.trace()
        same(before, snapshot(c), str(case))
    elif kind == "serial":
        c = make(case["name"])
        before = snapshot(c)
        for k, opts in enumerate(OPTS):
            with fixed_urandom(5 + k):
                loops, clusters, stabs, seeds = run_multi_louvain(c, 3, **opts)
            expect(len(loops) == 3, f"{case}: {loops}")
            verify((clusters, stabs, seeds), case["name"], 3, opts, f"run_multi_louvain {case} {opts}", ctx)
        same(before, snapshot(c), str(case))
        ctx.state(repr(case))
        ctx.trace()
    elif kind == "seq":
        # two runs in one process: nothing of the first may reach the second
        ca, cb = (make(x) for x in case["names"])
        for bits in ((), (1,), (0, 1)):
            s = pool.Scheduler(bits)
            with pool.controlled(s, pc, nc), fixed_urandom(7):
                ra = pc.compute_parallel_clustering(ca, num_repeat=2, nproc=2, verbose=False)
                rb = pc.compute_parallel_clustering(cb, num_repeat=2, nproc=2, verbose=False)
            verify(ra, case["names"][0], 2, {}, f"first of {case} schedule {s.trace}", ctx)
            verify(rb, case["names"][1], 2, {}, f"second of {case} schedule {s.trace}", ctx)
            ctx.trace()
            ctx.count("schedules")
            ctx.state(repr((case, tuple(s.trace))))
    elif kind in ("nvi", "nvi4"):
        n = 3 if kind == "nvi" else 4
        parts = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)]
        lists = [[parts[i] for i in case["idx"]]] if kind == "nvi" else [[parts[case["first"]], p, parts[-1 - k]] for k, p in enumerate(parts)]
        for cl in lists:
            _nvi(case, cl, n, ctx)
    else:
        c = make(case["name"])
        res = pc.compute_parallel_clustering(c, num_repeat=4, nproc=2, verbose=False)
        verify(res, case["name"], 4, {}, f"real pool {case}", ctx)
        parts = [ref.rgs_to_sets(r) for r in ref.set_partitions(3)]
        got = pc.compute_parallel_nvi([list(p) for p in parts], 3, nproc=2, verbose=False)
        want = [ref.nvi(a, b) for a, b in itertools.combinations(parts, 2)]
        expect(len(got) == len(want) and np.allclose(got, want, atol=1e-10), f"compute_parallel_nvi with a real pool: {got} instead of {want}")
        ctx.trace(2)


def _nvi(case, cl, n, ctx):
    want = [ref.nvi(a, b) for a, b in itertools.combinations(cl, 2)]
    for nproc in (1, 2, 3) if case["kind"] == "nvi" else (1, 2):
        def run(s):
            with pool.controlled(s, pc, nc):
                return pc.compute_parallel_nvi([[set(c) for c in p] for p in cl], n, nproc=nproc, verbose=False)

        for choices, got in pool.explore(run):
            expect(len(got) == len(want) and np.allclose(got, want, atol=1e-10),
                   f"variation of information of {cl} nproc={nproc} schedule {choices}: {got} instead of {want}")
            ctx.step(len(want))
            ctx.trace()
            ctx.count("schedules")
            ctx.state(repr((cl, nproc, choices)))
            ctx.outcome(canon_array(np.array(want)))
            if case["kind"] == "nvi4":
                break
    for m in range(1, len(want) + 2):
        np.random.seed(m)
        got = list(pc.compute_parallel_nvi([[set(c) for c in p] for p in cl], n, nproc=1, verbose=False, num_varinf_samples=m))
        expect(len(got) == min(m, len(want)), f"variation of information of {cl}, {m} samples: {len(got)} values")
        it = iter(want)
        expect(all(any(abs(g - w) < 1e-10 for w in it) for g in got), f"variation of information of {cl}, {m} samples: {got} not among {want}")
        ctx.step()
