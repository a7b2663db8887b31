"""C05 - linear approximation of the propagators and stationary transitions."""
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close, expect_valid_csr
from checks import families as fam
from flowstab.sparse_stoch_mat import SparseStochMat

PROPERTY = "C05"
RULE = ("every multiset of 1-2 contacts over 3 nodes and of 3 contacts over 4 nodes x windows x t_s in "
        "{10,2,3.5,1.25} x rates placing rate*tau below, at, between and above 1 and t_s x storage format; "
        "a case is non-trivial when its list of matrices is new")
ASSUMPTIONS = ["contacts of one pair do not overlap", "t_s > 1"]
CHUNK = 2


def cases(tier):
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            for ts in (10, 2, 3.5, 1.25):
                yield dict(ev=ev, grid=g, w="all", ts=[ts], lam=[None, 0.1, 0.5, 1.0, 1.25, 2.0, 3.5, 10.0, 20.0])
    for ev in fam.big_events():
        yield dict(ev=ev, grid="raw", w="big", ts=[10, 3], lam=[None, 0.25, 2.0, 5.0])
    for m in (1, 2):
        for ev in fam.event_sets(3, m):
            yield dict(ev=ev, grid="int", w="some", ts=[10, 2], lam=[0.5, 1.0, 4.0, 11.0])
            if tier == "thorough":
                yield dict(ev=ev, grid="float", w="all", ts=[10, 2.5], lam=[None, 0.3, 1.0, 2.0, 11.0])
    for ev in fam.event_sets(4, 3):
        if len({e[0] for e in ev} | {e[1] for e in ev}) == 4:
            yield dict(ev=ev, grid="int", w="one", ts=[10], lam=[0.25, 3.0])


def check(case, ctx):
    ev = fam.on_grid(case["ev"], case["grid"])
    g = fam.GRIDS.get(case["grid"]) or ref.event_times(ev)
    wins = {"one": [(None, None)], "big": [(None, None), (g[2], g[-2])],
            "some": [(None, None), (g[1], None), (g[1], g[1])],
            "all": list(itertools.product([None] + g, repeat=2)) if len(g) == 4 else []}[case["w"]]
    times = ref.event_times(ev)
    n = len(ref.node_labels(ev))
    for (t0, t1) in wins:
        k0, k1 = ref.window(times, t0, t1)
        As = ref.adjacencies(ev, t0, t1)
        for ss, fix in itertools.product((False, True), repeat=2):
            net = fam.network(ev)
            net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
            for ts, lam in itertools.product(case["ts"], case["lam"]):
                net.compute_lin_inter_transition_matrices(lamda=lam, t_s=ts, fix_tau_k=fix, use_sparse_stoch=ss)
                key = lam if lam is not None else 1 / np.median(np.diff(times))
                what = f"events {ev} window ({t0},{t1}) lamda={lam} t_s={ts} fix_tau_k={fix} sparse_stoch={ss}"
                hit = [k for k in net.inter_T_lin if abs(k - key) < 1e-12 * max(1, key)]
                expect(len(hit) == 1 and ts in net.inter_T_lin[hit[0]], f"{what}: result not stored")
                Ts = net.inter_T_lin[hit[0]][ts]
                want = [ref.lin_approx(A, key * (1.0 if fix else times[k0 + i + 1] - times[k0 + i]), ts)
                        for i, A in enumerate(As)] or [np.eye(n)]
                expect(len(Ts) == len(want), f"{what}: {len(Ts)} matrices instead of {len(want)}")
                got = [dense(T) for T in Ts]
                for i, (T, W) in enumerate(zip(got, want)):
                    expect_close(T, W, f"{what}: T[{i}]", tol=1e-8)
                    expect_close(T.sum(1), np.ones(n), f"{what}: row sums of T[{i}]")
                    expect((T >= -1e-12).all(), f"{what}: T[{i}] has negative entries")
                    expect_valid_csr(Ts[i].tocsr(), what)
                    expect(isinstance(Ts[i], SparseStochMat) == ss, f"{what}: T[{i}] stored as {type(Ts[i]).__name__}")
                ctx.step(len(want))
                ctx.trace()
                ctx.state(repr((case["ev"], case["grid"], t0, t1, lam, ts, fix, ss)))
                ctx.outcome(b"".join(canon_array(T) for T in got))
