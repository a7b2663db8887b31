"""C06 - cumulative transition matrices are the ordered products."""
import copy
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from checks import families as fam

PROPERTY = "C06"
RULE = ("every multiset of 2 contacts over 3 nodes, of 3 contacts over 4 nodes and a list of structurally "
        "different networks x {exact, linear} x storage x forward/reversed x all/final product x csr forcing "
        "x tolerance {none, 1e-8, 0.05, 0.35}; a case is non-trivial when its list of products is new")
ASSUMPTIONS = ["contacts of one pair do not overlap",
               "with tolerance tol every factor and product may change by tol times a small constant"]
CHUNK = 2


def cases(tier):
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            yield dict(ev=ev, grid=g, lam=[0.1, 1.0, 2.5], full=True)
    for ev in fam.big_events():
        yield dict(ev=ev, grid="raw", lam=[0.3, 2.0], full=True)
    for ev in fam.event_sets(3, 2):
        yield dict(ev=ev, grid="int", lam=[0.8], full=True)
    for ev in fam.event_sets(4, 3):
        if len({e[0] for e in ev} | {e[1] for e in ev}) == 4:
            yield dict(ev=ev, grid="int", lam=[0.8], full=tier == "thorough")


def _trimmed(factors, blocks, n, rev, tol, scope):
    """Products with entries of at most tol times the largest one dropped and rows renormalised at every step (None if an
    entry lies on the threshold); the largest entry is the one of the whole matrix or of its non-trivial block."""
    def cut(M, block, scope):
        b = sorted(block) if scope == "block" else list(range(n))
        if not b:
            return M
        thr = tol * np.abs(M[np.ix_(b, b)]).max()
        if (np.abs(np.abs(M) - thr) < 1e-9 * thr).any():
            return None
        M = np.where(np.abs(M) <= thr, 0.0, M)
        if not M.any(1).all():
            return None
        return M / M.sum(1, keepdims=True)

    order = range(len(factors))[::-1] if rev else range(len(factors))
    out, block = [], set()
    for k in order:
        F = cut(factors[k], blocks[k], scope[0] if out else scope[1])
        if F is None:
            return None
        block |= blocks[k]
        P = F if not out else cut(out[-1] @ F, block, scope[1])
        if P is None:
            return None
        out.append(P)
    return out


def _compare(got, want, what, interm, tol, n, ctx, exact=()):
    if interm:
        expect(isinstance(got, list) and len(got) == len(want),
               f"{what}: {len(got) if isinstance(got, list) else type(got)} products instead of {len(want)}")
    else:
        got, want = [got], want[-1:]
    slack = 1e-9 if tol is None else 1e-9 + 4 * tol * n * len(want if interm else range(6))
    for i, (T, W) in enumerate(zip(got, want)):
        expect_close(T, W, f"{what}: product {i}", tol=slack)
        expect_close(dense(T).sum(1), np.ones(n), f"{what}: row sums of product {i}")
        expect_valid_csr(T.tocsr(), what)
    if exact and all(x is not None for x in exact):
        for x in exact:
            x = x if interm else x[-1:]
            if all(np.abs(dense(T) - X).max() < 1e-9 for T, X in zip(got, x)):
                break
        else:
            expect(False, f"{what}: not the products with entries below the tolerance dropped: "
                          f"{[dense(T).tolist() for T in got]} instead of {[X.tolist() for X in exact[0]]}")
        ctx.count("trimmed products compared exactly")
    ctx.step(len(got))
    ctx.trace()
    ctx.outcome(b"".join(canon_array(dense(T)) for T in got))


def check(case, ctx):
    ev = fam.on_grid(case["ev"], case["grid"])
    times = ref.event_times(ev)
    n = len(ref.node_labels(ev))
    As = ref.adjacencies(ev)
    taus = np.diff(times)
    for lam, ss in itertools.product(case["lam"], (False, True)):
        want_i = [ref.expm_rw(ref.rw_laplacian(A), lam * t) for A, t in zip(As, taus)]
        want_l = [ref.lin_approx(A, lam * t) for A, t in zip(As, taus)]
        base = fam.network(ev)
        base.compute_laplacian_matrices()
        opts = [(rev, interm, csr, tol) for rev in (False, True) for interm in (True, False)
                for csr in (False, True) for tol in ((None, 1e-8, 0.05) if case["grid"] == "int" else (None, 0.05, 0.35))]
        if not case["full"]:
            opts = [o for o in opts if o[3] is None]
        for rev, interm, csr, tol in opts:
            what = f"events {ev} lamda={lam} sparse_stoch={ss} reverse={rev} save_intermediate={interm} force_csr={csr} tol={tol}"
            net = copy.deepcopy(base)              # an untouched object for every option
            net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
            net.compute_transition_matrices(lamda=lam, reverse_time=rev, save_intermediate=interm,
                                             force_csr=csr, tol=tol)
            blocks = [set(np.nonzero(A.sum(1))[0]) for A in As]
            exact = () if tol is None else [_trimmed(want_i, blocks, n, rev, tol, scope) for scope in itertools.product(("block", "full"), repeat=2)]
            if tol == 0.35 and any(x is None for x in exact):      # rows without any entry left, or entries on the threshold
                continue
            _compare(net.T[lam], ref.products(want_i, rev), what, interm, tol, n, ctx, exact)
            for i, (T, W) in enumerate(zip(net.inter_T[lam], want_i)):
                expect_close(T, W, f"{what}: inter_T[{i}] after the product", tol=1e-8)
            ctx.state(repr((case["ev"], case["grid"], lam, ss, rev, interm, csr, tol)))
        for rev, interm in itertools.product((False, True), repeat=2):
            what = f"events {ev} linear lamda={lam} sparse_stoch={ss} reverse={rev} save_intermediate={interm}"
            net = copy.deepcopy(base)
            net.compute_lin_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
            net.compute_lin_transition_matrices(lamda=lam, reverse_time=rev, save_intermediate=interm)
            _compare(net.T_lin[lam][10], ref.products(want_l, rev), what, interm, None, n, ctx)
            for i, (T, W) in enumerate(zip(net.inter_T_lin[lam][10], want_l)):
                expect_close(T, W, f"{what}: inter_T_lin[{i}] after the product", tol=1e-8)
            ctx.state(repr((case["ev"], case["grid"], lam, ss, rev, interm)))
