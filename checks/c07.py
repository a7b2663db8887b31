"""C07 - sparse stochastic matrices behave as the matrices they stand for."""
import copy
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from flowstab.sparse_stoch_mat import SparseStochMat, inplace_csr_row_normalize

PROPERTY = "C07"
RULE = ("operands: every subset of non-trivial rows/columns of matrices of size 1-4 x value patterns (stochastic, "
        "general, sparse with empty rows, explicit zeros, unsorted) x diagonals {1, 0, 2.5, -0.5}; every operand "
        "under every unary operation, every ordered pair under +, -, @ (also with csr and ndarray partners on "
        "either side), and every operation sequence of length 3 from a set of starting matrices, against dense "
        "mirrors; non-trivial when the dense result is new")
ASSUMPTIONS = ["row normalisation is used on matrices with a non-zero diagonal value",
               "T_small holds no duplicate entries and nz_rowcols is sorted"]
CHUNK = 2
DIAGS = [1.0, 0.0, 2.5, -0.5]
PATTERNS = ["stoch", "gen", "lower", "empty"]


def small(k, pat):
    """k x k values of the given pattern (all entries distinct, so that misplacements show)."""
    A = np.array([[(1 + i * k + j) / (1 + k * k) for j in range(k)] for i in range(k)]).reshape(k, k)
    if pat == "stoch":
        return A / A.sum(1, keepdims=True) if k else A
    if pat == "gen":
        A = A.copy()
        A[::2, 1::2] *= -1
        return A
    if pat == "lower":                     # empty first row, strictly lower triangle
        return np.tril(A, -1)
    if pat == "upper":
        return np.triu(A)
    if pat == "diag":
        return np.diag(np.diag(A))
    return np.zeros((k, k))                # "empty"


def build(n, nz, pat, diag, unsorted=False, explicit_zero=False):
    k = len(nz)
    V = small(k, pat)
    S = csr_matrix(V)
    if explicit_zero and k:
        S = csr_matrix((np.append(S.data, [])[:], S.indices, S.indptr), shape=(k, k))
        if S.nnz:
            S.data[0] = 0.0
            V = V.copy()
            V[tuple(np.argwhere(small(k, pat) != 0)[0])] = 0.0
    if unsorted and k:
        idx, dat = S.indices.copy(), S.data.copy()
        for r in range(k):
            a, b = S.indptr[r], S.indptr[r + 1]
            idx[a:b] = idx[a:b][::-1]
            dat[a:b] = dat[a:b][::-1]
        S = csr_matrix((dat, idx, S.indptr), shape=(k, k))
    M = SparseStochMat.from_small_csr_matrix(n, S, np.array(nz, dtype=int), diag_val=diag)
    D = diag * np.eye(n)
    D[np.ix_(nz, nz)] = V
    return M, D


def operands(n, tier):
    for k in range(n + 1):
        for nz in itertools.combinations(range(n), k):
            pats = PATTERNS if n <= 3 else ["gen", "lower"]
            for pat in (pats if k else ["empty"]):
                for diag in (DIAGS if n <= 3 or tier == "thorough" else [1.0, 2.5]):
                    yield [n, list(nz), pat, diag]


def cases(tier):
    for n in (1, 2, 3, 4):
        for o in operands(n, tier):
            yield dict(kind="unary", a=o)
    for n in (1, 2, 3, 4):
        for o in operands(n, tier):
            yield dict(kind="pairs", a=o)
    starts = [[3, [], "empty", 1.0], [3, [0, 2], "stoch", 1.0], [3, [1], "gen", 2.5], [3, [0, 1, 2], "gen", 0.0],
              [4, [1, 3], "stoch", 1.0], [4, [0, 1], "gen", -0.5]]
    for s in starts:
        for first in range(len(OPS)):
            yield dict(kind="seq", a=s, first=first, depth=3 if tier == "quick" else 4)
    for n in (7, 12):
        for diag in DIAGS:
            yield dict(kind="big", n=n, diag=diag)


def same(M, D, what, ctx=None, tol=1e-10):
    F = M.to_full_mat()
    expect_valid_csr(F, what)
    expect(M.shape == D.shape, f"{what}: shape {M.shape}")
    expect_close(F, D, what, tol=tol)
    expect_close(M.toarray(), D, what + " toarray", tol=tol)
    expect_close(M.tocsr(), D, what + " tocsr", tol=tol)
    if ctx is not None:
        ctx.step()
        ctx.state(canon_array(D))
        ctx.outcome(canon_array(dense(F)))


def unary(case, ctx):
    n, nz, pat, diag = case["a"]
    for un, ez in ((False, False), (True, False), (False, True)):
        def mk():
            return build(n, nz, pat, diag, un, ez)
        M, D = mk()
        what = f"matrix of size {n}, rows {nz}, pattern {pat}, diagonal {diag}, unsorted={un}, explicit_zero={ez}:"
        same(M, D, what, ctx)
        same(M.copy(), D, what + " copy", ctx)
        same(copy.deepcopy(M), D, what + " deepcopy", ctx)
        same(M.T, D.T, what + " T", ctx)
        same(M.transpose(copy=True), D.T, what + " transpose(copy=True)", ctx)
        same(M.T.T, D, what + " T.T", ctx)
        d = M.to_dict()
        same(SparseStochMat(**d), D, what + " to_dict round trip", ctx)
        for v in (1.0, 0.0, diag, -2.0):
            same(M.add_diag(v), D + v * np.eye(n), what + f" add_diag({v})", ctx)
            same(M.sub_diag(v), D - v * np.eye(n), what + f" sub_diag({v})", ctx)
        same(M.add_diag(), D + np.eye(n), what + " add_diag()", ctx)
        same(M.sub_diag(), D - np.eye(n), what + " sub_diag()", ctx)
        for s in (2, 0.5, -1.0, 0, np.float64(3.0)):
            same(M * s, D * s, what + f" * {s}", ctx)
            same(s * M, D * s, what + f" {s} *", ctx)
        v = np.arange(1.0, n + 1)
        X = np.arange(1.0, 2 * n + 1).reshape(n, 2)
        expect_close(M @ v, D @ v, what + " @ vector")
        expect_close(v @ M, v @ D, what + " vector @")
        expect_close(M @ X, D @ X, what + " @ array")
        expect_close(X.T @ M, X.T @ D, what + " array @")
        same(M, D, what + " after the operations")
        # conversions from the full matrix, rows detected or given
        F = csr_matrix(D)
        for dv in {diag, 1.0}:
            same(SparseStochMat.from_full_csr_matrix(F.copy(), diag_val=dv), D, what + f" from_full(diag_val={dv})", ctx)
        for extra in ([], [r for r in range(n) if r not in nz][:1], [r for r in range(n) if r not in nz]):
            rows = sorted(nz + extra)
            same(SparseStochMat.from_full_csr_matrix(F.copy(), nz_rowcols=np.array(rows, dtype=int), diag_val=diag), D,
                 what + f" from_full(nz_rowcols={rows})", ctx)
        # in-place operations
        if diag != 0:
            for rs in (1.0, 2.5):
                W = D.copy()
                for r in range(n):
                    s = W[r].sum()
                    if s != 0:
                        W[r] *= rs / s
                for f in (lambda m: m.inplace_row_normalize(rs), lambda m: inplace_csr_row_normalize(m, rs)):
                    M, _ = mk()
                    C = M.copy()
                    f(M)
                    same(M, W, what + f" normalised to {rs}", ctx)
                    same(C, D, what + " copy after normalising the original")
            M, _ = mk()
            M.inplace_row_normalize()
            W = D / np.where(D.sum(1) == 0, 1, D.sum(1))[:, None]
            same(M, W, what + " normalised", ctx)
        # trimming applies to the entries of the non-trivial rows
        V = D[np.ix_(nz, nz)]
        for tol, rel, ab in itertools.product((1e-8, 0.3), (True, False), (True, False)):
            M, _ = mk()
            C = M.copy()
            M.set_to_zeroes(tol=tol, relative=rel, use_absolute_value=ab)
            if V.size and V.any():
                t = tol * np.abs(V).max() if rel else tol
                K = np.abs(V) if ab else V
                if not (np.abs(K - t) < 1e-12).any():
                    W = D.copy()
                    W[np.ix_(nz, nz)] = np.where(K <= t, 0, V)
                    same(M, W, what + f" set_to_zeroes({tol}, {rel}, {ab})", ctx)
            else:
                same(M, D, what + " set_to_zeroes", ctx)
            same(C, D, what + " copy after set_to_zeroes on the original")
            if V.size and V.any():                       # the largest entry is negative
                N = -1.0 * C
                N.set_to_zeroes(tol=tol, relative=rel, use_absolute_value=ab)
                K = np.abs(V) if ab else -V
                t = tol * np.abs(V).max() if rel else tol
                if not (np.abs(K - t) < 1e-12).any():
                    W = -D
                    W[np.ix_(nz, nz)] = np.where(K <= t, 0, -V)
                    same(N, W, what + f" negated, set_to_zeroes({tol}, {rel}, {ab})", ctx)
        ctx.trace()
    D0 = diag * np.eye(n)
    same(SparseStochMat.create_diag(n, diag), D0, f"create_diag({n}, {diag})", ctx)
    same(SparseStochMat.create_diag(n), np.eye(n), f"create_diag({n})", ctx)


def pairs(case, ctx):
    n = case["a"][0]
    for o in operands(n, ctx.tier):
        A, DA = build(*case["a"], unsorted=len(o[1]) % 2 == 1)
        B, DB = build(*o)
        what = f"A={case['a']} B={o}:"
        expect(A.check_nz_intersect_len(B) == len(set(case["a"][1]) & set(o[1])), what + " check_nz_intersect_len")
        for sym, f in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("@", lambda x, y: x @ y)):
            W = f(DA, DB)
            R = f(A, B)
            expect(isinstance(R, SparseStochMat), f"{what} A {sym} B is a {type(R)}")
            same(R, W, f"{what} A {sym} B", ctx)
            # the result shares nothing with the operands
            R.inplace_row_normalize(3.0)
            R.set_to_zeroes(tol=0.9)
            same(A, DA, f"{what} A after changing A {sym} B in place")
            same(B, DB, f"{what} B after changing A {sym} B in place")
            F = csr_matrix(DB)
            expect_close(f(A, F), W, f"{what} A {sym} csr(B)")
            expect_close(f(A, DB), W, f"{what} A {sym} array(B)")
            expect_close(f(DB, A), f(DB, DA), f"{what} array(B) {sym} A")
            expect_close(f(F, A), f(DB, DA), f"{what} csr(B) {sym} A")
        ctx.trace()


# operations of the sequences: (name, on the matrix (returns new or None), on the mirror)
def _norm(M):
    M = M.copy()
    M.inplace_row_normalize(1.0)
    return M


def _dnorm(D):
    s = D.sum(1)
    return D / np.where(s == 0, 1, s)[:, None]


OPS = [("+B", lambda M, B: M + B, lambda D, E: D + E),
       ("-B", lambda M, B: M - B, lambda D, E: D - E),
       ("B-", lambda M, B: B - M, lambda D, E: E - D),
       ("@B", lambda M, B: M @ B, lambda D, E: D @ E),
       ("B@", lambda M, B: B @ M, lambda D, E: E @ D),
       ("@self", lambda M, B: M @ M, lambda D, E: D @ D),
       ("T", lambda M, B: M.T, lambda D, E: D.T),
       ("*", lambda M, B: -2.0 * M, lambda D, E: -2.0 * D),
       ("sub_diag", lambda M, B: M.sub_diag(1.0), lambda D, E: D - np.eye(len(D))),
       ("add_diag", lambda M, B: M.add_diag(0.5), lambda D, E: D + 0.5 * np.eye(len(D))),
       ("csr", lambda M, B: SparseStochMat.from_full_csr_matrix(M.tocsr()), lambda D, E: D),
       ("trim", lambda M, B: (lambda C: (C.set_to_zeroes(1e-12, use_absolute_value=True), C)[1])(M.copy()), lambda D, E: D)]


def seq(case, ctx):
    n = case["a"][0]
    Bs = [build(n, [0, n - 1], "gen", 2.5), build(n, [1], "gen", 1.0)]
    A, D = build(*case["a"])
    first = True

    def rec(M, D, depth, path):
        for i, (name, f, g) in enumerate(OPS):
            if not path and i != case["first"]:
                continue
            for b, (B, E) in enumerate(Bs if "B" in name else Bs[:1]):
                p = path + [f"{name}{b if 'B' in name else ''}"]
                what = f"start {case['a']} sequence {p}"
                R = f(M, B)
                W = g(D, E)
                sc = max(1.0, np.abs(W).max())
                same(R, W, what, ctx, tol=1e-9 * sc)
                if depth > 1:
                    rec(R, W, depth - 1, p)
                else:
                    ctx.trace()
        same(M, D, f"start {case['a']} after {path} and later operations", tol=1e-9 * max(1.0, np.abs(D).max()))
    rec(A, D, case["depth"], [])


def big(case, ctx):
    n, diag = case["n"], case["diag"]
    sets = [list(range(n)), list(range(0, n, 2)), list(range(1, n, 2)), [0, 1, 2], [n - 1], [n - 3, n - 1], []]
    for a, b in itertools.product(sets, sets):
        for pa, pb in (("stoch", "gen"), ("upper", "lower"), ("diag", "gen")):
            A, DA = build(n, a, pa, diag)
            B, DB = build(n, b, pb, 1.0)
            what = f"n={n} A rows {a} {pa} diag {diag}, B rows {b} {pb}:"
            same(A + B, DA + DB, what + " A + B", ctx)
            same(A - B, DA - DB, what + " A - B", ctx)
            same(A @ B, DA @ DB, what + " A @ B", ctx)
            same(B @ A.T, DB @ DA.T, what + " B @ A.T", ctx)
            same(SparseStochMat.from_full_csr_matrix(A.tocsr(), diag_val=diag), DA, what + " from_full", ctx)
            ctx.trace()


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
