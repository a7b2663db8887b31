"""C09 - stability and move gains are exact."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import clusterfam as cf
from flowstab.network_clustering import BaseClustering, Clustering, Partition, SparseClustering
from flowstab.sparse_stoch_mat import SparseAutocovMat, SparseStochMat

PROPERTY = "C09"
RULE = ("every support of a 3-node transition matrix x {default, generic, partly zero} probabilities, every sign "
        "pattern of a 3-node covariance, symmetric 4-node sign patterns and graphs of 4-9 nodes; dense, sparse, "
        "sparse-stochastic and direct-covariance constructions x all partitions (in both input forms) x all moves "
        "between clusters including an empty one, and thresholds between the entries of the covariance; non-trivial when (covariance, partition) is new")
ASSUMPTIONS = ["rows of T sum to one or zero; PT is non-negative for the sparse form"]
CHUNK = 4


def cases(tier):
    for n in (1, 2, 3):
        for rows in cf.row_patterns(n):
            for p in (None, "generic", "zero"):
                yield dict(kind="T", n=n, rows=rows, p=p)
    yield dict(kind="T", n=3, rows=[[1, 2], [], [0]], p="generic")
    yield dict(kind="T", n=4, rows=[[1, 2], [], [0, 3], []], p=None)
    for n, sym in ((2, False), (3, False), (4, True)):
        for bits in range(2 ** cf.n_cells(n, sym)):
            yield dict(kind="S", n=n, bits=bits, sym=sym)
    for g in cf.GRAPHS:
        for t in (0.3, 2.0):
            yield dict(kind="G", g=g, t=t)
    if tier == "thorough":
        for bits in range(2 ** cf.n_cells(4, False)):
            yield dict(kind="S", n=4, bits=bits, sym=False)
        for rows in itertools.product([r for k in (1, 2) for r in itertools.combinations(range(4), k)], repeat=4):
            yield dict(kind="T", n=4, rows=rows, p="generic")


def parts(n):
    if n <= 5:
        return [ref.rgs_to_sets(r) for r in ref.set_partitions(n)]
    h = n // 2
    return [[{i} for i in range(n)], [set(range(n))], [set(range(h)), set(range(h, n))],
            [set(range(0, n, 2)), set(range(1, n, 2))], [set(range(i, n, 3)) for i in range(3)]]


def clusterings(makers, cl):
    """The same partition in both input forms; sets are copied because moves change them."""
    for name, mk in makers:
        yield name + " cluster_list", mk(cluster_list=[set(c) for c in cl])
        yield name + " node dict", mk(node_to_cluster_dict={i: k for k, c in enumerate(cl) for i in c})


def check(case, ctx):
    makers = []
    if case["kind"] == "S":
        S = cf.signed_s(case["n"], case["bits"], case["sym"])
        makers.append(("dense S", lambda **k: Clustering(S=S, **k)))
        n = case["n"]
        makers.append(("dense T and S", lambda **k: Clustering(T=np.full((n, n), 1 / n), S=S, **k)))
    else:
        if case["kind"] == "T":
            n = case["n"]
            T, p1 = cf.t_from_rows(n, case["rows"]), cf.p_vec(n, case["p"])
        else:
            T, p1 = cf.graph_t(case["g"], case["t"])
            n = len(T)
        v = np.full(n, 1 / n) if p1 is None else p1
        S = ref.autocov(v, T)
        makers.append(("dense T", lambda **k: Clustering(T=T, p1=p1, **k)))
        makers.append(("sparse T", lambda **k: SparseClustering(T=csr_matrix(T), p1=p1, **k)))
        makers.append(("sparse S", lambda **k: SparseClustering(S=SparseAutocovMat.from_T(csr_matrix(T), p1), **k)))
        makers.append(("sparse-stochastic T", lambda **k: SparseClustering(
            T=SparseStochMat.from_full_csr_matrix(csr_matrix(T)), p1=p1, **k)))
        if p1 is not None:
            p2 = np.sqrt(np.arange(1.0, n + 1))
            p2 /= p2.sum()
            S2 = ref.autocov(v, T, p2)
            for nm, c in (("dense p2", Clustering(T=T, p1=p1, p2=p2)), ("sparse p2", SparseClustering(T=csr_matrix(T), p1=p1, p2=p2))):
                expect(abs(c.compute_stability() - np.trace(S2)) < 1e-12, f"{case} {nm}: stability of the singletons")
        if n <= 3 and case["rows"] if case["kind"] == "T" else False:
            W = (v[:, None] * T * np.array([1 / x if x > 0 else 0 for x in v @ T])) @ T.T * v - np.outer(v, v)
            F = SparseClustering(S=SparseAutocovMat.from_T_forward(csr_matrix(T), p1), cluster_list=[set(range(n))])
            expect(abs(F.compute_stability() - W.sum()) < 1e-12, f"{case} forward covariance")
    lo = np.abs(S).max() * 1e-10 + 1e-13
    threshold(case, S, None if case["kind"] == "S" else (T, p1), ctx)
    for cl in parts(n):
        want = ref.stability(S, cl)
        ctx.state(canon_array(S) + repr(ref.canon_clusters(cl)).encode())
        for name, C in clusterings(makers, cl):
            what = f"{case} partition {cl} {name}:"
            got = C.compute_stability()
            expect(abs(got - want) <= lo * n * n, f"{what} stability {got!r} instead of {want!r}")
            P = C.partition
            expect(ref.canon_clusters(P.cluster_list) == ref.canon_clusters(cl), what + f" partition {P.cluster_list}")
            ctx.trace()
            ctx.outcome(repr((round(float(got), 12), ref.canon_clusters(cl))))
            to, out = getattr(C, "_compute_delta_stab_moveto", None), getattr(C, "_compute_delta_stab_moveout", None)
            if to is None or out is None:
                continue
            # append an empty cluster by hand: clusters do empty out during a sweep
            P.cluster_list.append(set())
            for k in range(n):
                ci = P.node_to_cluster_dict[k]
                src = set(P.cluster_list[ci])
                o = out(k, ci)
                w = ref.stability(S, [src - {k}]) - ref.stability(S, [src])
                expect(abs(o - w) <= lo * n, f"{what} gain of moving {k} out of {src}: {o!r} instead of {w!r}")
                for cj in range(len(P.cluster_list)):
                    if cj == ci:
                        continue
                    dst = set(P.cluster_list[cj])
                    i = to(k, cj)
                    w = ref.stability(S, [dst | {k}]) - ref.stability(S, [dst])
                    expect(abs(i - w) <= lo * n, f"{what} gain of moving {k} into {dst}: {i!r} instead of {w!r}")
                    # and the stability reported after the move
                    if n <= 3:
                        P.move_node(k, cj)
                        after = C.compute_stability()
                        expect(abs(after - (want + o + i)) <= lo * n * n,
                               f"{what} moving {k} from {src} to {dst}: stability {after!r}, predicted {want + o + i!r}")
                        P.move_node(k, ci)
                    ctx.step()
            expect(abs(C.compute_stability() - want) <= lo * n * n, what + " stability after looking at the moves")
            P.cluster_list.pop()
            agg = getattr(C, "_aggregate_clusters", None)
            if agg is not None:
                idx = [sorted(c) for c in P.cluster_list]
                G = agg()[3]
                G = dense(G) if isinstance(G, np.ndarray) else G.toarray()
                W = np.array([[S[np.ix_(a, b)].sum() for b in idx] for a in idx])
                expect_close(G, W, what + " aggregated covariance")
                expect(abs(np.trace(G) - want) <= lo * n * n, what + " stability of the aggregated clusters")
    if n <= 3 and hasattr(BaseClustering, "_compute_new_R_moveto"):
        bi(case, S, n, ctx)


def threshold(case, S, tp, ctx):
    """Entries of the covariance smaller in absolute value than S_threshold count as zero."""
    n = len(S)
    vals = np.unique(np.round(np.abs(S), 12))
    cuts = [(a + b) / 2 for a, b in zip(vals, vals[1:]) if b - a > 1e-9]
    forms = [("S", lambda **k: Clustering(S=S, **k))]
    if tp is not None:
        forms.append(("T", lambda **k: Clustering(T=tp[0], p1=tp[1], **k)))
    keep = S.copy()
    for thr in [cuts[i] for i in sorted({0, len(cuts) // 2, len(cuts) - 1})] if cuts else []:
        W = np.where(np.abs(keep) < thr, 0, keep)
        for name, mk in forms:
            for cl in parts(n) if n <= 3 else parts(n)[:3]:
                got, want = mk(S_threshold=thr, cluster_list=[set(c) for c in cl]).compute_stability(), ref.stability(W, cl)
                expect(abs(got - want) < 1e-12, f"{case} {name} with S_threshold={thr}, partition {cl}: stability {got!r} instead of {want!r}")
                ctx.step()
    expect((S == keep).all(), f"{case}: the given covariance was changed")


def bi(case, S, n, ctx):
    """Source/target bi-partitions: clustered covariance before and after moving a node."""
    def R_of(sp, tp):
        return np.array([[S[np.ix_(sorted(a), sorted(b))].sum() if a and b else 0.0 for b in tp] for a in sp])
    P = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)]
    for sp, tp in itertools.product(P, P):
        B = BaseClustering(S=S, source_cluster_list=[set(c) for c in sp], target_cluster_list=[set(c) for c in tp])
        R = R_of(sp, tp)
        what = f"{case} source {sp} target {tp}:"
        expect_close(B._compute_clustered_autocov(), R, what + " clustered covariance")
        if hasattr(B, "_find_optimal_flow"):
            f = B._find_optimal_flow(R)
            m = min(R.shape)
            best = max(sum(R[i, j] for i, j in zip(r, c)) for r in itertools.combinations(range(R.shape[0]), m)
                       for c in itertools.permutations(range(R.shape[1]), m))
            expect(abs(f[0] - best) < 1e-10, f"{what} optimal flow {f[0]!r} instead of {best!r}")
        B.source_part.cluster_list.append(set())
        B.target_part.cluster_list.append(set())
        for k in range(n):
            cs, ct = B.source_part.node_to_cluster_dict[k], B.target_part.node_to_cluster_dict[k]
            s0 = [c - {k} for c in B.source_part.cluster_list]
            t0 = [c - {k} for c in B.target_part.cluster_list]
            Ro = B._compute_new_R_moveout(k, (cs, ct), Rold=R_of(B.source_part.cluster_list, B.target_part.cluster_list))
            expect_close(Ro, R_of(s0, t0), f"{what} moving {k} out")
            for fs, ft in itertools.product(range(len(s0)), range(len(t0))):
                s1 = [c | {k} if i == fs else c for i, c in enumerate(s0)]
                t1 = [c | {k} if i == ft else c for i, c in enumerate(t0)]
                expect_close(B._compute_new_R_moveto(k, (cs, ct), (fs, ft), Ro), R_of(s1, t1),
                             f"{what} moving {k} to ({fs},{ft})")
                ctx.step()
