"""C04 - inter-event transition matrices are the exact propagators."""
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from checks import families as fam
from flowstab.sparse_stoch_mat import SparseStochMat

PROPERTY = "C04"
RULE = ("every multiset of 1-2 contacts over 3 nodes and of 3 contacts over 4 nodes (both time grids for the "
        "former) x windows x rates x the lattice fixed waiting times x sparse stochastic storage x dense "
        "exponential; a case is non-trivial when its list of transition matrices is new")
ASSUMPTIONS = ["contacts of one pair do not overlap", "rate*duration up to a few hundred",
               "the reference exponential is the symmetric eigendecomposition of numpy"]
CHUNK = 2
OPTS = list(itertools.product((False, True), repeat=3))   # fix_tau, sparse_stoch, dense_expm
LAM = [None, 0.5, 3.0]


def cases(tier):
    for m in (1, 2):
        for ev in fam.event_sets(3, m):
            for g in ("int", "float"):
                yield dict(ev=ev, grid=g, w="all" if tier == "thorough" else "some",
                           lam=LAM if m == 1 or tier == "thorough" else ([None, 3.0] if g == "int" else [0.5]))
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            yield dict(ev=ev, grid=g, w="all", lam=[None, 3.0])
            yield dict(ev=ev, grid=g, w="some", lam=[1e-6, 1e-3, 0.5, 1.0, 50.0])
    for ev in fam.big_events():
        yield dict(ev=ev, grid="raw", w="big", lam=[None, 0.3, 4.0])
    for i, ev in enumerate(fam.event_sets(4, 3)):
        if tier == "thorough":
            yield dict(ev=ev, grid="int", w="one", lam=[0.7])
        elif len({e[0] for e in ev} | {e[1] for e in ev}) == 4:
            yield dict(ev=ev, grid="int", w="one", lam=[0.7], half=i % 3)


def check(case, ctx):
    ev = fam.on_grid(case["ev"], case["grid"])
    g = fam.GRIDS.get(case["grid"]) or ref.event_times(ev)
    wins = {"one": [(None, None)], "big": [(None, None), (g[2], g[-2])],
            "some": [(None, None), (g[1], None), (None, g[2]), (g[1], g[1])],
            "all": list(itertools.product([None] + g, repeat=2)) if len(g) == 4 else []}[case["w"]]
    times = ref.event_times(ev)
    n = len(ref.node_labels(ev))
    for (t0, t1) in wins:
        k0, k1 = ref.window(times, t0, t1)
        Ls = ref.laplacians(ev, t0, t1)
        net = None
        opts = OPTS if "half" not in case else [[OPTS[1], OPTS[2], OPTS[4]], [OPTS[0], OPTS[3], OPTS[7]],
                                                [OPTS[0], OPTS[5], OPTS[6]]][case["half"]]
        for lam, (fix, ss, de) in itertools.product(case["lam"], opts):
            # a fresh object whenever this rate was already used on the current one
            if net is None or (fix, ss, de) != opts[0] or lam == case["lam"][0]:
                net = fam.network(ev)
                net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
            net.compute_inter_transition_matrices(lamda=lam, fix_tau_k=fix, use_sparse_stoch=ss, dense_expm=de)
            key = lam if lam is not None else 1 / np.median(np.diff(times))
            what = f"events {ev} window ({t0},{t1}) lamda={lam} fix_tau_k={fix} sparse_stoch={ss} dense_expm={de}"
            hit = [k for k in net.inter_T if abs(k - key) < 1e-12 * max(1, key)]
            expect(len(hit) == 1, f"{what}: rates {list(net.inter_T)} instead of {key}")
            Ts = net.inter_T[hit[0]]
            want = [ref.expm_rw(L, key * (1.0 if fix else times[k0 + i + 1] - times[k0 + i])) for i, L in enumerate(Ls)]
            if not want:
                want = [np.eye(n)]
            expect(len(Ts) == len(want), f"{what}: {len(Ts)} matrices instead of {len(want)}")
            got = [dense(T) for T in Ts]
            for i, (T, W) in enumerate(zip(got, want)):
                expect_close(T, W, f"{what}: T[{i}]", tol=1e-8)
                expect((T >= -1e-12).all(), f"{what}: T[{i}] has negative entries")
                expect_close(T.sum(1), np.ones(n), f"{what}: row sums of T[{i}]", tol=1e-9)
                expect_valid_csr(Ts[i].tocsr(), what)
                expect(isinstance(Ts[i], SparseStochMat) == ss, f"{what}: T[{i}] stored as {type(Ts[i]).__name__}")
            ctx.step(len(want))
            ctx.trace()
            ctx.state(repr((case["ev"], case["grid"], t0, t1, lam, fix, ss, de)))
            ctx.outcome(b"".join(canon_array(T) for T in got))
