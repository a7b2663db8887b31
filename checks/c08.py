"""C08 - sparse autocovariance matrices behave as their dense counterparts."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import canon_array, expect, expect_close
from flowstab.sparse_stoch_mat import SparseAutocovMat

PROPERTY = "C08"
RULE = ("every sparsity pattern of PT for 1-3 nodes and every pattern with up to 3 entries for 4 nodes (symmetric "
        "patterns also with the symmetric flag) x {generic, partly zero, uniform vector, uniform scalar} probabilities x "
        "all index-set pairs, elements, rows, columns, moves and partitions; constructors on every row-stochastic "
        "pattern of 3 nodes; non-trivial when the dense autocovariance is new")
ASSUMPTIONS = ["PT is non-negative without duplicates, p1 is a probability vector, p2 one or a part of one (scalars are 1/N)",
               "the all-zero test is decided for covariances with consistent marginals"]
CHUNK = 4
PROBS = ["generic", "zero", "uniform", "scalar", "partial"]


def probs(n, kind):
    if kind == "scalar":
        return 1.0 / n, 1.0 / n
    if kind == "uniform":
        return np.full(n, 1.0 / n), np.full(n, 1.0 / n)
    a = np.arange(1.0, n + 1)
    b = np.arange(2.0, 2 * n + 2, 2)[::-1] ** 1.5
    if kind == "zero" and n > 1:
        a[0] = 0
        b[-1] = 0
    if kind == "partial":                   # transition matrices with zero rows lose probability
        return a / a.sum(), 0.6 * b / b.sum()
    return a / a.sum(), b / b.sum()


def cases(tier):
    for n in (1, 2, 3):
        for bits in range(2 ** (n * n)):
            yield dict(kind="pattern", n=n, cells=[i for i in range(n * n) if bits >> i & 1])
    for k in range(0, 4 if tier == "quick" else 6):
        for cells in itertools.combinations(range(16), k):
            yield dict(kind="pattern", n=4, cells=list(cells))
    for cells in ([i for i in range(16) if i % 5], list(range(16)), [i for i in range(36) if i % 3], list(range(100))):
        n = int(round(np.sqrt(max(cells) + 1)))
        yield dict(kind="pattern", n=n, cells=list(cells))
    for n in (1, 2, 3):
        for rows in itertools.product([r for k in range(1, n + 1) for r in itertools.combinations(range(n), k)], repeat=n):
            yield dict(kind="ctor", n=n, rows=rows)


def val(S, what, a, b):
    expect(np.ndim(a) == 0, f"{what}: not a number: {a!r}")
    expect(abs(float(a) - b) <= 1e-10, f"{what}: {float(a)!r} instead of {b!r}; S =\n{S}")


def subsets(n):
    if n <= 4:
        return [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
    return [[], list(range(n)), [0], [n - 1], list(range(0, n, 2)), list(range(1, n, 2)), [2, 0], list(range(n))[::-1]]


def partitions(n):
    if n <= 4:
        for r in ref.set_partitions(n):
            yield ref.rgs_to_sets(r)
    else:
        yield [{i} for i in range(n)]
        yield [set(range(n))]
        yield [set(range(0, n, 2)), set(range(1, n, 2))]
        yield [{0}, {n - 1}, set(range(1, n - 1))]


def queries(A, S, what, ctx, probe_moves=True):
    n = len(S)
    expect_close(A.toarray(), S, what + " toarray")
    expect(tuple(A.shape) == (n, n), what + f" shape {A.shape}")
    for i, j in itertools.product(range(n), repeat=2):
        val(S, f"{what} get_element({i},{j})", A.get_element(i, j), S[i, j])
    subs = subsets(n)
    for r in subs:
        ra = np.array(r, dtype=np.int32)
        for i in range(n):
            val(S, f"{what} get_row_idx_sum({i},{r})", A.get_row_idx_sum(i, r), S[i, r].sum() if r else 0.0)
            val(S, f"{what} get_col_idx_sum({i},{r})", A.get_col_idx_sum(i, r), S[r, i].sum() if r else 0.0)
        cols = subs if n < 4 else [r, [x for x in range(n) if x not in r], list(range(n)), [n - 1, 1]]
        for c in cols:
            ca = np.array(c, dtype=np.int32)
            val(S, f"{what} get_submat_sum({r},{c})", A.get_submat_sum(ra, ca), S[np.ix_(r, c)].sum() if r and c else 0.0)
        if hasattr(A, "_compute_delta_S_moveto") and hasattr(A, "_compute_delta_S_moveout"):
            for k in range(n):
                if k in r:
                    rest = [x for x in r if x != k]
                    w = S[np.ix_(rest, rest)].sum() - S[np.ix_(r, r)].sum()
                    val(S, f"{what} gain of moving {k} out of {r}", A._compute_delta_S_moveout(k, ra), w)
                else:
                    w = S[np.ix_(r + [k], r + [k])].sum() - (S[np.ix_(r, r)].sum() if r else 0.0)
                    val(S, f"{what} gain of moving {k} into {r}", A._compute_delta_S_moveto(k, ra), w)
        ctx.step(2 * n + len(cols))
    ctx.trace()
    ctx.outcome(canon_array(S))


def pattern(case, ctx):
    n = case["n"]
    B = np.zeros((n, n))
    for c in case["cells"]:
        B[c // n, c % n] = (1 + c) / 10
    variants = [(B, False)]
    if (B > 0).tolist() == (B.T > 0).tolist():
        variants += [(B + B.T, True), (B + B.T, False)]
    for (P, sym), kind in itertools.product(variants, PROBS if n < 4 else PROBS[::3]):
        P = P / P.sum() if P.sum() else P
        p1, p2 = probs(n, kind)
        if sym:
            p2 = p1
        S = P - np.outer(np.ones(n) * p1, np.ones(n) * p2)
        what = f"n={n} cells={case['cells']} p={kind} symmetric={sym}:"
        A = SparseAutocovMat(csr_matrix(P), p1, p2, PT_symmetric=sym)
        ctx.state(canon_array(S) + kind.encode() + bytes([sym]))
        queries(A, S, what, ctx)
        C = A.copy()
        for cl in partitions(n):
            for order in ([cl, cl[::-1]] if len(cl) > 1 else [cl]):
                idx = [sorted(c) for c in order]
                G = A.aggregate(idx)
                W = np.array([[S[np.ix_(a, b)].sum() for b in idx] for a in idx])
                expect_close(G.toarray(), W, f"{what} aggregate({idx})")
                if len(idx) == n and n <= 3:
                    queries(G, W, f"{what} aggregate({idx})", ctx)
                else:                            # second level
                    one = G.aggregate([list(range(len(idx)))])
                    expect_close(one.toarray(), [[W.sum()]], f"{what} aggregate({idx}) then all")
                ctx.step()
        expect_close(C.toarray(), S, what + " copy")
        expect(C.PT is not A.PT, what + " copy shares PT")
        C.PT.data[:] = 7.0
        expect_close(A.toarray(), S, what + " after the queries and after changing the copy")
        # the two classes of all-zero covariances and non-zero ones with the same marginals
        if (B > 0).all():
            Z = SparseAutocovMat(csr_matrix(np.outer(np.ones(n) * p1, np.ones(n) * p2)), p1, p2, PT_symmetric=sym)
            expect(bool(Z.is_all_zeros()), what + " outer product not recognised as all zero")
    if case["cells"]:
        T = B + np.diag((B.sum(1) == 0).astype(float))
        T /= T.sum(1, keepdims=True)
        for p1 in (None, probs(n, "generic")[0]):
            A = SparseAutocovMat.from_T(csr_matrix(T), p1)
            v = np.full(n, 1 / n) if p1 is None else p1
            S = ref.autocov(v, T)
            m = np.abs(S).max()
            if m < 1e-12 or m > 1e-4:
                expect(bool(A.is_all_zeros()) == (m < 1e-12), f"cells={case['cells']} is_all_zeros {A.is_all_zeros()}, S=\n{S}")


def ctor(case, ctx):
    n = case["n"]
    for flavour in (0, 1):
        T = np.zeros((n, n))
        for i, r in enumerate(case["rows"]):
            for j in r:
                T[i, j] = 1.0 if flavour == 0 else 1.0 + i + 2 * j
            T[i] /= T[i].sum()
        Tc = csr_matrix(T)
        g1, g2 = probs(n, "generic")
        z1, _ = probs(n, "zero")
        t1 = g1.copy()
        if n > 1:
            t1[0], t1[-1] = 1e-7, t1[-1] + t1[0] - 1e-7          # a very small probability is not a zero one
        for p1, p2 in ((None, None), (g1, None), (z1, None), (g1, g2), (None, g2), (t1, None)):
            what = f"T={T.tolist()} p1={p1} p2={p2}:"
            v1 = np.full(n, 1 / n) if p1 is None else p1
            v2 = v1 @ T if p2 is None else p2
            args = [None if p1 is None else p1.copy(), None if p2 is None else p2.copy()]
            A = SparseAutocovMat.from_T(Tc, *args)
            queries(A, ref.autocov(v1, T, v2), what + " from_T", ctx)
            F = SparseAutocovMat.from_T_forward(Tc, *args)
            inv = np.array([1 / x if x > 0 else 0.0 for x in v2])
            W = (v1[:, None] * T * inv) @ T.T * v1 - np.outer(v1, v1)
            queries(F, W, what + " from_T_forward", ctx)
            expect_close(Tc, T, what + " T was changed")
            for a, b in zip(args, (p1, p2)):
                if a is not None:
                    expect((a == b).all(), what + " probabilities were changed")
            for cl in partitions(n):
                idx = [sorted(c) for c in cl]
                W2 = np.array([[W[np.ix_(a, b)].sum() for b in idx] for a in idx])
                expect_close(F.aggregate(idx).toarray(), W2, f"{what} from_T_forward aggregate({idx})")
                expect_close(A.aggregate(idx).toarray(), np.array([[ref.autocov(v1, T, v2)[np.ix_(a, b)].sum() for b in idx] for a in idx]),
                             f"{what} from_T aggregate({idx})")
            ctx.state(canon_array(T) + canon_array(v1) + canon_array(v2))


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
