"""C24 - sparse helper operations equal their dense definitions."""
import itertools

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from flowstab import sparse_stoch_mat as sm
from flowstab import temporal_network as tn

PROPERTY = "C24"
RULE = ("all 1x1 and 2x2 matrices over {absent, stored zero, 1, 0.25, -0.5, 1e-9}, all 3x3 supports with generic values, with ones and "
        "near-ones, and all 3x3 matrices over {absent, 0.25, -0.5} (thorough: over {absent, 1, 0.25, -0.5}), larger structured "
        "matrices, in csr and csc form with 32 and 64 bit indices and with unsorted rows, under every helper and argument; "
        "pairs of 2x2 supports and structured matrices for the product; the spectral gap of every connected graph up to 5 nodes (6 "
        "thorough); non-trivial when the matrix is new")
ASSUMPTIONS = ["a matrix returned with only its upper triangle filled (documented) is compared on the upper triangle",
               "outer products of vectors with at least one non-zero entry",
               "rows whose entries sum to zero are left alone by row normalisation (documented)",
               "without the absolute-value option trimming zeroes every entry <= tol*max|a| (as documented for non-negative "
               "matrices)"]
CHUNK = 8
V2 = ["absent", 0.0, 1.0, 0.25, -0.5, 1e-9]


def cases(tier):
    yield from gap_cases(tier)
    for v in V2:
        yield dict(n=1, cells=[v])
    for c in itertools.product(V2, repeat=4):
        yield dict(n=2, cells=c)
    for bits in range(512):
        yield dict(n=3, bits=bits, vals="generic")
        yield dict(n=3, bits=bits, vals="ones")
    for name in ("perm5", "band6", "block7", "empty4", "full5", "line200"):
        yield dict(n=0, name=name)
    for a in range(16):
        for b in range(16):
            yield dict(n=2, mul=(a, b))
    al = ["absent", 1.0, 0.25, -0.5] if tier == "thorough" else ["absent", 0.25, -0.5]
    for head in itertools.product(al, repeat=3):
        for h2 in al:
            yield dict(n=3, head=head + (h2,), al=al)


def gap_cases(tier):
    for n in range(2, 6 if tier == "quick" else 7):
        m = n * (n - 1) // 2
        for lo in range(0, 2 ** m, 64):
            yield dict(n=n, gap=lo)


def gaps(case, ctx):
    """Spectral gap of every connected graph: second smallest eigenvalue of its random-walk Laplacian."""
    n = case["n"]
    pairs = list(itertools.combinations(range(n), 2))
    for bits in range(case["gap"], min(case["gap"] + 64, 2 ** len(pairs))):
        A = np.zeros((n, n))
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1:
                A[i, j] = A[j, i] = 1
        if max(ref.components(A)) > 0:
            continue
        L = ref.rw_laplacian(A)
        want = np.sort(np.linalg.eigvals(L).real)[1]
        for cls in (csr_matrix, csc_matrix):
            got = tn.find_spectral_gap(cls(L))
            expect_close(np.ravel(got), [want], f"spectral gap of the graph with edges {[p for k, p in enumerate(pairs) if bits >> k & 1]} as {cls.__name__}", tol=1e-7)
        ctx.state(repr((n, bits)))
        ctx.outcome(repr((n, round(want, 9))))
        ctx.step(2)


def make(n, cells):
    """Row-major cells -> (rows, cols, data) with explicitly stored zeros."""
    r, c, d = [], [], []
    for k, v in enumerate(cells):
        if v != "absent":
            r.append(k // n)
            c.append(k % n)
            d.append(float(v))
    return n, r, c, d


def structured(name):
    n = int(name[-3:]) if name.endswith("200") else int(name[-1])
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if name.startswith("perm") and j == (2 * i + 1) % n:
                A[i, j] = 1.0
            elif name.startswith("band") and abs(i - j) <= 1:
                A[i, j] = 0.1 + 0.3 * i + 0.05 * j
            elif name.startswith("block") and i // 3 == j // 3 and i != 3:
                A[i, j] = 1.0 / (1 + i + j)
            elif name.startswith("full"):
                A[i, j] = (-1.0) ** (i * j) * (1 + i + 2 * j) / 7
            elif name.startswith("line") and j in (i, i + 1) and i % 5:
                A[i, j] = 0.5 + 0.001 * i
    r, c = np.nonzero(A)
    return n, list(r), list(c), list(A[r, c])


def build(trip, fmt, idx=np.int32, flip=False):
    n, r, c, d = trip
    order = sorted(range(len(d)), key=lambda k: (r[k], -c[k] if flip else c[k]) if fmt == "csr" else (c[k], -r[k] if flip else r[k]))
    major = r if fmt == "csr" else c
    minor = c if fmt == "csr" else r
    ptr = np.zeros(n + 1, dtype=idx)
    for k in range(len(d)):
        ptr[major[k] + 1:] += 1
    M = (csr_matrix if fmt == "csr" else csc_matrix)((n, n))
    M.data = np.array([d[k] for k in order], dtype=float)
    M.indices = np.array([minor[k] for k in order], dtype=idx)
    M.indptr = ptr
    M.has_sorted_indices = not flip
    return M


def check(case, ctx):
    if "gap" in case:
        return gaps(case, ctx)
    if "mul" in case:
        return check_mul(case, ctx)
    if case.get("al"):
        for tail in itertools.product(case["al"], repeat=5):
            one(make(3, tuple(case["head"]) + tail), ctx, light=True)
        return
    if case["n"] == 0:
        trip = structured(case["name"])
        one(trip, ctx)
        A = to_dense(trip)
        products(A, np.roll(A, 1, 0), case["name"], ctx)
        return
    if "bits" in case:
        vals = [0.3 + 0.1 * k for k in range(9)] if case["vals"] == "generic" else [1.0, 1 - 1e-9, 1 + 3e-9, 0.5, 1e-9, 1 - 1e-3, 1.0, 2.0, -1.0]
        cells = [vals[k] if case["bits"] >> k & 1 else "absent" for k in range(9)]
        return one(make(3, cells), ctx)
    one(make(case["n"], case["cells"]), ctx)


def to_dense(trip):
    n, r, c, d = trip
    A = np.zeros((n, n))
    for i, j, v in zip(r, c, d):
        A[i, j] += v
    return A


def normalised(A, stored, target):
    """Dense definition of the row normalisation."""
    out = A.copy()
    for i in range(len(A)):
        s = A[i].sum()
        t = target if np.isscalar(target) else target[i]
        if s == 0.0:
            continue
        if t == 0.0:
            out[i] = np.where(stored[i], A[i] - s / stored[i].sum(), 0.0)
        else:
            out[i] = A[i] * (t / s)
    return out


def one(trip, ctx, light=False):
    n, r, c, d = trip
    A = to_dense(trip)
    stored = np.zeros((n, n), bool)
    stored[r, c] = True
    what = f"matrix\n{A}\n(stored: {stored.astype(int).tolist()})"
    ctx.state(canon_array(A, 12) + stored.tobytes())
    variants = [("csr", np.int32, False), ("csr", np.int64, False), ("csr", np.int32, True)]
    csum = A.sum(1)
    clean = all(s == 0 or abs(s) > 1e-12 for s in csum) and all(abs(s) > 1e-12 or not stored[i].any() or (A[i] == 0).all()
                                                               for i, s in enumerate(csum))
    # row normalisation
    targets = [1.0, 0.0, 2.5, np.linspace(0.5, 2.0, n), np.where(np.arange(n) % 2 == 0, 0.0, 1.5)]
    for fmt, idx, flip in variants[:1] if light else variants:
        for t in targets:
            M = build(trip, fmt, idx, flip)
            keep_idx = M.indices.copy(), M.indptr.copy(), M.indices.dtype, M.indptr.dtype
            sm.inplace_csr_row_normalize(M, row_sum=t.copy() if isinstance(t, np.ndarray) else t)
            if clean:
                expect_close(M, normalised(A, stored, t), f"{what}: row normalised to {t}", tol=1e-10)
            expect_valid_csr(M, f"{what}: row normalised")
            expect((M.indices == keep_idx[0]).all() and (M.indptr == keep_idx[1]).all()
                   and M.indices.dtype == keep_idx[2] and M.indptr.dtype == keep_idx[3],
                   f"{what}: structure changed by row normalisation")
            ctx.step()
        if not flip:
            M = build(trip, "csr", idx)
            sm.inplace_csr_row_normalize(M)
            if clean:
                expect_close(M, normalised(A, stored, 1.0), f"{what}: row normalised (default)", tol=1e-10)
    if clean:
        M = build(trip, "csc")
        keep = M.copy()
        R = tn.csc_row_normalize(M)
        expect(R.format == "csc", f"{what}: csc_row_normalize returned {R.format}")
        expect_close(R, normalised(A, stored, 1.0), f"{what}: csc_row_normalize", tol=1e-10)
        expect((dense(M) == dense(keep)).all(), f"{what}: csc_row_normalize modified its argument")
    # diagonal scaling
    for dv in (np.arange(1.0, n + 1), np.where(np.arange(n) % 2, -0.5, 0.0), np.arange(1.0, n + 1).reshape(1, n)):
        for fmt, idx, flip in ([("csr", np.int32, False), ("csc", np.int32, False)] if light else
                               variants + [("csc", np.int32, False), ("csc", np.int64, True)]):
            M = build(trip, fmt, idx, flip)
            keep = dv.copy()
            sm.inplace_diag_matmul_csr(M, dv)
            expect_close(M, np.diag(dv.ravel()) @ A, f"{what}: diag({dv}) @ A ({fmt})")
            M = build(trip, fmt, idx, flip)
            sm.inplace_csr_matmul_diag(M, dv)
            expect_close(M, A @ np.diag(dv.ravel()), f"{what}: A @ diag({dv}) ({fmt})")
            expect((dv == keep).all(), f"{what}: scaling vector modified")
            expect_valid_csr(M, f"{what}: scaled")
            ctx.step(2)
    # trimming
    mx = np.abs(A).max()
    for fmt in ("csr", "csc")[:1 if light else 2]:
        for tol, rel, ab in itertools.product((0.3, 0.5) if light else (None, 1e-8, 0.3, 0.5), (True, False), (True, False)):
            M = build(trip, fmt)
            tn.set_to_zeroes(M, tol=tol, relative=rel, use_absolute_value=ab)
            W = A.copy()
            if tol is not None:
                lim = tol * mx if rel else tol
                W[(np.abs(A) if ab else A) <= lim] = 0.0
                expect((M.data != 0).all(), f"{what}: explicit zeros left after trimming")
            expect_close(M, W, f"{what}: set_to_zeroes(tol={tol}, relative={rel}, use_absolute_value={ab}) ({fmt})", tol=0)
            expect_valid_csr(M, f"{what}: trimmed")
            ctx.step()
            if fmt == "csr" and A.shape[0] == A.shape[1] and n and tol is not None:
                # through the sparse stochastic storage: its non-trivial block is trimmed
                idx = np.arange(n)
                B = build(trip, "csr")
                B.sum_duplicates()
                M = sm.SparseStochMat.from_small_csr_matrix(n + 1, B, idx, 1.0)
                bm = np.abs(B.data).max() if B.nnz else 0.0
                tn.set_to_zeroes(M, tol=tol, relative=rel, use_absolute_value=ab)
                D = A.copy()
                D[(np.abs(A) if ab else A) <= (tol * bm if rel else tol)] = 0.0
                W = np.eye(n + 1)
                W[:n, :n] = D
                expect_close(M.toarray(), W, f"{what}: set_to_zeroes(tol={tol}, relative={rel}, use_absolute_value={ab}) "
                             "(sparse stochastic)", tol=0)
                ctx.step()
        for tol in (1e-8, 1e-2, 0.6):
            M = build(trip, fmt)
            tn.set_to_ones(M, tol=tol)
            W = np.where(stored & (np.abs(A - 1) <= tol), 1.0, A)
            expect_close(M, W, f"{what}: set_to_ones(tol={tol}) ({fmt})", tol=0)
            ctx.step()
    # gram matrices
    iu = np.triu_indices(n)
    for tr in (True, False):
        M = build(trip, "csr")
        G = dense(sm.sparse_gram_matrix(M, transpose=tr))
        W = A @ A.T if tr else A.T @ A
        expect(G.shape == W.shape, f"{what}: gram shape {G.shape}")
        expect_close(G[iu], W[iu], f"{what}: gram matrix transpose={tr} (upper triangle)")
        expect((dense(M) == A).all(), f"{what}: gram matrix modified its argument")
        ctx.step()
    # outer products of the rows
    for i in range(min(n, 7)):
        if (A[i] != 0).any():
            for mkl, tri in itertools.product((True, False), repeat=2):
                p = csr_matrix(A[i:i + 1])
                O = dense(sm.sparse_outer(p, use_mkl=mkl, triu=tri))
                W = np.outer(A[i], A[i])
                if tri:
                    expect_close(O, np.triu(W), f"{what}: outer product of row {i} triu use_mkl={mkl}")
                else:
                    expect_close(O[iu], W[iu], f"{what}: outer product of row {i} use_mkl={mkl} (upper triangle)")
                    if not mkl:
                        expect_close(O, W, f"{what}: outer product of row {i}")
                ctx.step()
    # trivial rows and columns
    for fmt in ("csr", "csc"):
        M = build(trip, fmt)
        small, nz, size = tn.remove_nnz_rowcol(M)
        keepers = [i for i in range(n) if stored[i].any() or stored[:, i].any()]
        expect(list(nz) == keepers and size == n, f"{what}: remove_nnz_rowcol kept {nz} of {size} instead of {keepers}")
        expect_close(small, A[np.ix_(keepers, keepers)], f"{what}: remove_nnz_rowcol")
        expect((dense(M) == A).all(), f"{what}: remove_nnz_rowcol modified its argument")
        if keepers:
            for size2, off in ((n, 0), (n + 2, 1)):
                for dv in (1.0, 0.0, -0.5):
                    idx = np.array([k + off for k in nz])
                    T = small.tocsr()
                    full = sm.rebuild_nnz_rowcol(T, idx, size2, dv)
                    W = np.eye(size2) * dv
                    W[np.ix_(idx, idx)] = A[np.ix_(keepers, keepers)]
                    expect_close(full, W, f"{what}: rebuild_nnz_rowcol at {idx} size {size2} diagonal {dv}")
                    expect_valid_csr(full, f"{what}: rebuilt")
                    ctx.step()
                zero = np.array([k for k in range(size2) if k not in set(idx)], dtype=int)
                dd, ii, pp, nr = tn.numpy_rebuild_nnz_rowcol(T.data, T.indices, T.indptr, zero)
                W = np.eye(size2)
                W[np.ix_(idx, idx)] = A[np.ix_(keepers, keepers)]
                expect(nr == size2, f"{what}: numpy_rebuild_nnz_rowcol size {nr}")
                expect_close(csr_matrix((dd, ii, pp), shape=(nr, nr)), W, f"{what}: numpy_rebuild_nnz_rowcol")
        ctx.trace()
    ctx.outcome(canon_array(A, 12))


def products(A, B, what, ctx):
    for fa in (csr_matrix, csc_matrix):
        X, Y = fa(A), fa(B)
        C = sm.sparse_matmul(X, Y)
        expect_close(C, A @ B, f"{what}: sparse product {fa.__name__}\n{A}\n@\n{B}")
        expect((dense(X) == A).all() and (dense(Y) == B).all(), f"{what}: sparse product modified its arguments")
        ctx.step()
    ctx.trace()


def check_mul(case, ctx):
    a, b = case["mul"]
    for base in (0.5, -2.0):
        A = np.array([(base + k) if a >> k & 1 else 0.0 for k in range(4)]).reshape(2, 2)
        B = np.array([(1.5 - base * k) if b >> k & 1 else 0.0 for k in range(4)]).reshape(2, 2)
        products(A, B, "2x2", ctx)
        ctx.state(canon_array(A) + canon_array(B))
        ctx.outcome(canon_array(A @ B))
