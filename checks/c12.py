"""C12 - flow-stability covariances are the exact time integrals."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import clusterfam as cf
from checks import families as fam
from flowstab.network_clustering import FlowIntegralClustering
from flowstab.sparse_stoch_mat import SparseStochMat

PROPERTY = "C12"
RULE = ("every sequence of 1-3 matrices from a set of 3-node transition matrices (directed, permutation, identity, "
        "absorbing, symmetric) and every network of 2 contacts over 3 nodes x time lists x direction x {default, generic, "
        "partly zero} distribution x {dense, csr, sparse-stochastic} x {inter-event, cumulative} input x every time grid "
        "(subsets of the times, off-grid times, either order); non-trivial when the list of covariances is new")
ASSUMPTIONS = ["grids begin at the first time of the list and their points snap to distinct times",
               "with relative tolerance r every step may drop entries below r times the largest one"]
CHUNK = 4

MATS = [np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.]]), np.eye(3),
        np.array([[.5, .5, 0], [.25, .75, 0], [0, 0, 1.]]),
        np.array([[.2, .3, .5], [.6, .1, .3], [.4, .4, .2]]),
        np.array([[1, 0, 0], [1, 0, 0], [.3, 0, .7]]),
        np.array([[.6, .2, .2], [.2, .7, .1], [.2, .1, .7]])]
TIMES = {"unit": None, "int": [3, 4, 6, 11], "float": [-2.5, -1.0, 0.25, 1.5]}


def cases(tier):
    for ev in fam.big_events():
        yield dict(kind="net", ev=ev, grid="raw", lam=[0.4])
    for m in (1, 2, 3):
        for seq in itertools.product(range(len(MATS) if m < 3 or tier == "thorough" else 5), repeat=m):
            yield dict(kind="mats", seq=seq, times=list(TIMES) if m < 3 or tier == "thorough" else [list(TIMES)[sum(seq) % 3]],
                       grids="all" if m < 3 or tier == "thorough" or seq[0] == 3 else "some")
    for ev in fam.tiny_events():
        yield dict(kind="net", ev=ev, grid="float", lam=[0.7, 5.0])
    for ev in fam.event_sets(3, 2):
        yield dict(kind="net", ev=ev, grid="int", lam=[0.9])


def forms(Ts):
    yield "dense", [T.copy() for T in Ts]
    yield "csr", [csr_matrix(T) for T in Ts]
    yield "sparse-stochastic", [SparseStochMat.from_full_csr_matrix(csr_matrix(T)) for T in Ts]


def p_vec(n, kind):
    """Distributions of clusterfam, nearly uniform ones and ones with a very small entry."""
    if kind == "near":
        p = np.full(n, 1 / n)
        p[0] += 1e-5
        p[-1] -= 1e-5
        return p
    if kind == "tiny":
        p = np.arange(1., n + 1)
        p[0] = 0
        p /= p.sum() / (1 - 1e-7)
        p[0] = 1e-7
        return p
    return cf.p_vec(n, kind)


def grids(tl, how):
    """(grid argument, indices of the interval ends) for a direction-ordered time list."""
    tl = list(tl)
    K = len(tl) - 1
    yield None, [K]
    ends = [c for r in range(1, K + 1) for c in itertools.combinations(range(1, K + 1), r)]
    if how == "few":
        ends = [tuple(range(1, K + 1, max(1, K // 4)))]
    if how == "some":
        ends = [tuple(range(1, K + 1)), (K,)] + ([(1,)] if K > 1 else [])
    for e in ends:
        g = [tl[0]] + [tl[k] for k in e]
        yield g, list(e)
        if how == "few":
            continue
        yield g[::-1], list(e)                                        # given in the other order
        off = [tl[0]] + [tl[k] + 0.4 * (tl[k + 1] - tl[k]) if k < K else tl[k] for k in e]
        yield off, list(e)
        yield [tl[0] - (tl[1] - tl[0])] + off[1:], list(e)            # a start before the first time


def compare(F, want, what, tol=1e-9):
    expect(len(F.I_list) == len(want), f"{what}: {len(F.I_list)} integrals instead of {len(want)}")
    for k, (I, W) in enumerate(zip(F.I_list, want)):
        expect_close(I if isinstance(I, np.ndarray) else I.toarray(), W, f"{what}: integral {k}", tol=tol)


def clusters(F, want, k, what, ctx, seed=3, neigh=None):
    F.find_louvain_clustering(k=k, rnd_seed=seed)
    n = len(want[k])
    cl = F.partition[k].cluster_list
    expect(ref.is_partition(cl, n), f"{what}: clusters of interval {k}: {cl}")
    s = ref.stability(want[k], cl)
    expect(abs(F.clustering[k].compute_stability() - s) < 1e-9, f"{what}: stability of interval {k}: "
           f"{F.clustering[k].compute_stability()!r} instead of {s!r}")
    expect(s >= np.trace(want[k]) - 1e-6, f"{what}: clustering of interval {k} is worse than single nodes")
    if neigh is not None:
        for a, b in itertools.combinations([sorted(c) for c in cl], 2):
            if neigh[np.ix_(a, b)].any() or neigh[np.ix_(b, a)].any():
                g = want[k][np.ix_(a, b)].sum() + want[k][np.ix_(b, a)].sum()
                expect(g < 1e-9, f"{what}: merging {a} and {b} of the clusters of interval {k} would gain {g!r}")
    ctx.step()


def explore(Ts, times, n, what0, how, ctx, full=True):
    K = len(Ts)
    for rev, pk in itertools.product((False, True), (None, "generic", "zero", "near", "tiny")):
        if pk in ("near", "tiny") and not full:
            continue
        p1 = p_vec(n, pk)
        tl = list(range(K + 1)) if times is None else list(times)
        dl = tl[::-1] if rev else tl
        cum = ref.products(Ts, rev)
        for gi, (g, ends) in enumerate(grids(dl, how)):
            want = ref.flow_integrals(Ts, tl, p1, rev, ends)
            for (name, L), (_, LC) in zip(forms(Ts), forms(cum)):
                what = f"{what0} times {times} reverse={rev} p1={pk} grid={g} {name}"
                if pk in ("near", "tiny") and gi > 0:
                    continue
                kw = dict(p1=None if p1 is None else p1.copy(), time_list=times, integral_time_grid=g, reverse_time=rev)
                if pk == "tiny":
                    kw["rtol"] = 0                                      # the tolerance is relative to very large entries
                F = FlowIntegralClustering(T_inter_list=L, **kw)
                compare(F, want, what)
                for A, T in zip(L, Ts):
                    expect_close(A, T, what + ": input matrices changed")
                if gi < 4 and (pk != "zero" or full and gi < 1):
                    G = FlowIntegralClustering(T_list=LC, **kw)
                    compare(G, want, what + " cumulative input")
                    for A, T in zip(LC, cum):
                        expect_close(A, T, what + ": input matrices changed")
                if gi < 2 and full:
                    for k in range(len(want)):
                        clusters(F, want, k, what, ctx, seed=(gi + k) % 3,
                                 neigh=None if pk != "generic" else cum[ends[k] - 1] > 1e-9 if name == "dense" else
                                 np.abs(want[k] + np.outer(p1, p1)) > 1e-6)
                    compare(F, want, what + " after clustering")
                ctx.step(len(want))
                ctx.trace()
                ctx.state(repr((what,)))
                ctx.outcome(b"".join(canon_array(W) for W in want))
        # a coarse tolerance changes the sparse integrals by no more than announced
        for rtol in (0.0, 0.05) if pk not in ("near", "tiny") else ():
            acc = ref.flow_integrals(Ts, tl, p1, rev, [K])[0]
            v = np.full(n, 1 / n) if p1 is None else p1
            tot = abs(tl[-1] - tl[0])
            raw = np.where(np.outer(v, v) > 0, (acc + np.outer(v, v)) * tot / np.where(np.outer(v, v) > 0, np.outer(v, v), 1), 0)
            # upper bound of the unweighted integral, also in rows the distribution does not reach
            bound = 0.0
            for T, a, b in zip(cum, dl, dl[1:]):
                pt = v @ T
                M = sum(np.outer(T[:, c], T[:, c]) / (pt[c] if pt[c] else 1.0) for c in range(n)) * abs(b - a)
                bound += M.max()
            slack = 1e-9 + 2 * K * rtol * bound * v.max() ** 2 / tot
            for name, L in list(forms(Ts))[1:]:
                F = FlowIntegralClustering(T_inter_list=L, p1=p1, time_list=times, reverse_time=rev, rtol=rtol)
                compare(F, [acc], f"{what0} times {times} reverse={rev} p1={pk} rtol={rtol} {name}", tol=slack)
    # backward is forward of the reversed sequence
    tl = list(range(K + 1)) if times is None else list(times)
    for name, L in forms(Ts):
        a = FlowIntegralClustering(T_inter_list=L, time_list=tl, reverse_time=True).I_list
        b = FlowIntegralClustering(T_inter_list=L[::-1], time_list=[-t for t in tl[::-1]]).I_list
        for x, y in zip(a, b):
            expect_close(x if isinstance(x, np.ndarray) else x.toarray(), y if isinstance(y, np.ndarray) else y.toarray(),
                         f"{what0} {name}: backward against forward of the reversed sequence")


def check(case, ctx):
    if case["kind"] == "mats":
        Ts = [MATS[i] for i in case["seq"]]
        for t in case["times"]:
            times = TIMES[t] if TIMES[t] is None else TIMES[t][:len(Ts) + 1]
            explore(Ts, times, 3, f"matrices {list(case['seq'])}", case["grids"], ctx)
        return
    ev = fam.on_grid(case["ev"], case["grid"])
    for lam in case["lam"]:
        times = ref.event_times(ev)
        Ts = [ref.expm_rw(L, lam * (b - a)) for L, a, b in zip(ref.laplacians(ev), times, times[1:])]
        explore(Ts, times, len(Ts[0]), f"network {ev} lamda={lam}", "some" if len(Ts) < 6 else "few", ctx, full=len(Ts) < 6)
        # the library's own matrices
        for ss in (False, True):
            net = fam.network(ev)
            net.compute_laplacian_matrices()
            net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
            for rev in (False, True):
                F = FlowIntegralClustering(T_inter_list=net.inter_T[lam], time_list=net.times, reverse_time=rev)
                compare(F, ref.flow_integrals(Ts, times, None, rev), f"network {ev} sparse_stoch={ss} reverse={rev}", tol=1e-7)
