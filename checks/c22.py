"""C22 - static clustering uses the stationary walk of the given graph."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from flowstab.network_clustering import Partition, static_clustering

PROPERTY = "C22"
RULE = ("all labelled undirected graphs of 2-4 nodes (with isolated nodes, self loops and weights), all strongly connected "
        "digraphs of 2-3 nodes with weights {1, 2.5} patterns and of 4 nodes, structured graphs of 6-9 nodes x dense/sparse x "
        "{exponential, linearised, discrete} x times; stability of every partition (n<=4) and the probabilities compared "
        "with the reference; non-trivial when the covariance is new")
ASSUMPTIONS = ["at least one edge", "directed graphs strongly connected, at least 3 nodes in the sparse form",
               "discrete time with integer t"]
CHUNK = 4
MODES = [("exp", 1), ("exp", 0.3), ("exp", 4.0), ("lin", 1), ("lin", 0.5), ("lin", 2.5), ("disc", 1), ("disc", 2), ("disc", 3)]


def strongly_connected(A):
    n = len(A)
    R = ((A > 0).astype(int) + np.eye(n, dtype=int)) > 0
    for _ in range(n):
        R = (R.astype(int) @ R.astype(int)) > 0
    return bool(R.all())


def cases(tier):
    for n in (2, 3, 4):
        pairs = list(itertools.combinations(range(n), 2))
        for bits in range(1, 2 ** len(pairs)):
            for var in ("plain", "weights", "loops", "ints"):
                yield dict(n=n, bits=bits, var=var, directed=False, modes=MODES)
    for n in (2, 3):
        for bits in range(2 ** (n * (n - 1))):
            for var in ("plain", "weights", "loops"):
                yield dict(n=n, bits=bits, var=var, directed=True, modes=MODES)
    for name in ("ring9", "cliques6", "star7", "dicycle7", "path8"):
        yield dict(n=0, name=name, bits=0, var="plain", directed=name == "dicycle7", modes=MODES)
        if name != "dicycle7":
            yield dict(n=0, name=name, bits=0, var="weights", directed=False, modes=MODES)
    for bits in range(4096):
        yield dict(n=4, bits=bits, var="plain" if bits % 2 else "weights", directed=True,
                   modes=MODES if tier == "thorough" else [MODES[bits % 3], MODES[4], MODES[7]])


def graph(case):
    n, directed = case["n"], case["directed"]
    if n == 0:
        name = case["name"]
        n = int(name[-1])
        A = np.zeros((n, n))
        for i in range(n):
            if name.startswith("ring") or name.startswith("dicycle"):
                A[i, (i + 1) % n] = 1
            elif name.startswith("star") and i:
                A[0, i] = 1
            elif name.startswith("path") and i + 1 < n:
                A[i, i + 1] = 1
            elif name.startswith("cliques"):
                for j in range(i + 1, n):
                    if i // 3 == j // 3:
                        A[i, j] = 1
        if name.startswith("cliques"):
            A[2, 3] = 1
        if name.startswith("dicycle"):
            A[3, 0] = 1
        else:
            A = np.maximum(A, A.T)
    else:
        cells = list(itertools.permutations(range(n), 2)) if directed else list(itertools.combinations(range(n), 2))
        A = np.zeros((n, n))
        for b, (i, j) in enumerate(cells):
            if case["bits"] >> b & 1:
                A[i, j] = 1
                if not directed:
                    A[j, i] = 1
    if case["var"] == "weights":
        W = 1 + (np.arange(n)[:, None] * 2 + np.arange(n)[None, :]) % 3 * 0.75
        A = A * (W if directed else W + W.T)
    elif case["var"] == "loops":
        A[n - 1, n - 1] += 1.5
        A[0, 0] += 1 if case["bits"] % 2 else 0
    return A


def taylor_expm(M):
    s = max(0, int(np.ceil(np.log2(max(np.abs(M).sum(1).max(), 1e-9)))) + 4)
    X = M / 2 ** s
    E = np.eye(len(M))
    P = np.eye(len(M))
    for k in range(1, 19):
        P = P @ X / k
        E = E + P
    for _ in range(s):
        E = E @ E
    return E


def check(case, ctx):
    A = graph(case)
    n = len(A)
    directed = case["directed"]
    if directed and not strongly_connected(A):
        return
    deg = A.sum(1)
    P = np.eye(n)
    for i in range(n):
        if deg[i] > 0:
            P[i] = A[i] / deg[i]
    if directed:
        M = np.vstack([P.T - np.eye(n), np.ones(n)])
        pi = np.linalg.lstsq(M, np.r_[np.zeros(n), 1.0], rcond=None)[0]
    else:
        pi = deg / deg.sum()
    if case["var"] == "ints":
        A = A.astype(int)
    parts = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)] if n <= 4 else \
        [[{i} for i in range(n)], [set(range(n))], [set(range(n // 2)), set(range(n // 2, n))],
         [set(range(0, n, 2)), set(range(1, n, 2))], [{0, n - 1}, set(range(1, n - 1))]]
    for (mode, t), sp in itertools.product(case["modes"], (False, True)):
        if sp and directed and n < 3:
            continue
        T = {"exp": lambda: taylor_expm(-t * (np.eye(n) - P)), "lin": lambda: np.eye(n) - t * (np.eye(n) - P),
             "disc": lambda: np.linalg.matrix_power(P, t)}[mode]()
        S = np.diag(pi) @ T - np.outer(pi, pi)
        G = csr_matrix(A) if sp else A.copy()
        keep = G.copy()
        cl = static_clustering(G, t=t, rnd_seed=3, discrete_time_rw=mode == "disc", linearized=mode == "lin", directed=directed)
        what = f"graph\n{A}\n{'directed ' if directed else ''}{'sparse ' if sp else 'dense '}{mode} t={t}"
        expect(type(G) is type(keep) and (dense(G) == dense(keep)).all(), f"{what}: the graph was modified")
        expect(cl.num_nodes == n, f"{what}: {cl.num_nodes} nodes")
        for name in ("p1", "p2"):
            if hasattr(cl, name):
                expect_close(np.asarray(getattr(cl, name)).ravel(), pi, f"{what}: {name}", tol=1e-7)
        if hasattr(cl, "T"):
            expect_close(cl.T, T, f"{what}: transition matrix", tol=1e-7)
        for p in parts:
            cl.source_part = cl.partition = Partition(n, cluster_list=[set(c) for c in p])
            got = cl.compute_stability()
            expect_close(np.array(float(got)), np.array(ref.stability(S, p)), f"{what}: stability of {p}", tol=1e-7)
        ctx.step(len(parts))
        ctx.trace()
        ctx.state(repr((case["n"], case.get("name"), case["bits"], case["var"], directed, mode, t, sp)))
        ctx.outcome(canon_array(S, 6))
