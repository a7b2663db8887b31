"""C17 - instantaneous networks hold each contact until the next event time, with unit waiting times."""
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam
from flowstab.temporal_network import ContTempInstNetwork

PROPERTY = "C17"
RULE = ("every sequence of 1-2 oriented instantaneous contacts over 3 nodes x 3 times (all windows, all options), one contact at each of 4-5 times "
        "(all windows), every sequence of 3 "
        "(4 in the thorough tier) contacts (repeated, simultaneous, opposite, unsorted), larger networks of simultaneous "
        "contacts; integer and float times; network also rebuilt from its table; a case is non-trivial when its list of "
        "Laplacians is new")
ASSUMPTIONS = ["contacts join two distinct nodes"]
CHUNK = 4
GRIDS = {"int": [0, 1, 4], "float": [-0.5, 0.25, 7.0], "long": [-2, -1, 0, 3, 4]}


def cases(tier):
    pairs = list(itertools.combinations(range(3), 2))
    one = [(s, t, k) for s, t in pairs + [p[::-1] for p in pairs] for k in range(3)]
    half = one[:9]
    for m in (1, 2):
        for c in itertools.product(one, repeat=m):
            yield dict(c=c, grid="int", w="all" if m == 1 else "some", deep=True)
            if m == 1 or c[0] in half:
                yield dict(c=c, grid="float", w="all", deep=False)
    big = [[(i, (i + 1 + k) % 8, k) for k in range(3) for i in range(8) if (i + k) % 3],
           [(i, 8, k) for k in range(3) for i in range(8) if i % 3 == k], [(i, i + 4, 2 - i % 3) for i in range(4)]]
    for c in big:
        for g in GRIDS:
            yield dict(c=c, grid=g, w="all", deep=True)
    # one contact at each of 4 or 5 times (every window between them)
    for m in (4, 5):
        for c in itertools.product(pairs, repeat=m):
            if m == 4 or tier == "thorough" or c[0] == pairs[0]:
                yield dict(c=[(s, t, k) for k, (s, t) in enumerate(c)], grid="long", w="all", deep=False)
    for c in itertools.product(half, repeat=3):
        yield dict(c=[x if i % 2 else (x[1], x[0], x[2]) for i, x in enumerate(c)], grid="int", w="one", deep=False)
    if tier == "thorough":
        for c in itertools.product(one, repeat=3):
            yield dict(c=c, grid="float", w="some", deep=True)
        for c in itertools.combinations_with_replacement(half, 4):
            yield dict(c=c, grid="int", w="some", deep=True)


def check(case, ctx):
    g = GRIDS[case["grid"]]
    con = [(s, t, g[k]) for s, t, k in case["c"]]
    ev = ref.inst_events(con)
    times = ref.event_times(ev)
    n = len(ref.node_labels(ev))
    net = fam.inst_network(con)
    what = f"instantaneous contacts {con}"
    back = net.node_to_label_dict
    got = sorted((back[r.source_nodes], back[r.target_nodes], r.starting_times, r.ending_times)
                 for r in net.events_table.itertuples())
    expect(got == sorted(ev), f"{what}: held as {got} instead of {sorted(ev)}")
    expect(net.instantaneous_events is True, f"{what}: not marked as instantaneous")
    expect(net.num_nodes == n and net.num_events == len(con), f"{what}: {net}")
    nets = [("new", net)]
    if case["deep"]:
        nets.append(("from its table", ContTempInstNetwork(events_table=net.events_table, relabel_nodes=False,
                                                           node_to_label_dict=net.node_to_label_dict)))
    mid = [(a + b) / 2 for a, b in zip(g, g[1:])]
    wins = {"one": [(None, None)], "some": [(None, None), (g[1], None), (None, g[1]), (g[2], g[2])],
            "all": list(itertools.product([None, *g, g[0] - 1, *mid, g[-1] + 5], repeat=2))}[case["w"]]
    med = 1 / np.median(np.diff(times))
    for name, nt in nets:
        for i, (t0, t1) in enumerate(wins):
            w = f"{what} ({name}) window ({t0},{t1})"
            adj = i % 2 == 0
            nt.compute_laplacian_matrices(t_start=t0, t_stop=t1, save_adjacencies=adj)
            expect(list(nt.times) == times, f"{w}: times {list(nt.times)} instead of {times}")
            As = ref.adjacencies(ev, t0, t1)
            expect(len(nt.laplacians) == len(As), f"{w}: {len(nt.laplacians)} Laplacians instead of {len(As)}")
            for k, A in enumerate(As):
                expect_close(nt.laplacians[k], ref.rw_laplacian(A), f"{w}: Laplacian {k}")
                if adj:
                    expect_close(nt.adjacencies[k], A, f"{w}: adjacency {k}")
            ctx.trace()
            ctx.step(len(As) + 1)
            ctx.state(repr((case["c"], case["grid"], name, t0, t1)))
            ctx.outcome(b"".join(canon_array(dense(L)) for L in nt.laplacians))
            if not case["deep"] and i:
                continue
            for lam, ss, de in itertools.product((None, 0.7, 3.0) if i < 3 else (0.7,), (False, True), (True, False)):
                nt.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss, dense_expm=de)
                key = med if lam is None else lam
                want = [ref.expm_rw(ref.rw_laplacian(A), key) for A in As] or [np.eye(n)]
                Ts = nt.inter_T[key]
                expect(len(Ts) == len(want), f"{w} lamda={lam}: {len(Ts)} transition matrices")
                for k, W in enumerate(want):
                    expect_close(Ts[k], W, f"{w} lamda={lam} sparse_stoch={ss} dense_expm={de}: T[{k}]")
                ctx.step(len(want))
                if de:
                    for ts in (10, 2):
                        nt.compute_lin_inter_transition_matrices(lamda=lam, t_s=ts, use_sparse_stoch=ss)
                        wl = [ref.lin_approx(A, key, ts) for A in As] or [np.eye(n)]
                        Tl = nt.inter_T_lin[key][ts]
                        expect(len(Tl) == len(wl), f"{w} lamda={lam}: {len(Tl)} linear matrices")
                        for k, W in enumerate(wl):
                            expect_close(Tl[k], W, f"{w} lamda={lam} t_s={ts} sparse_stoch={ss}: linear T[{k}]", tol=1e-8)
            if As:
                nt.compute_transition_matrices(lamda=0.7, save_intermediate=True, tol=None)
                P = np.eye(n)
                for k, A in enumerate(As):
                    P = P @ ref.expm_rw(ref.rw_laplacian(A), 0.7)
                    expect_close(nt.T[0.7][k], P, f"{w}: product {k}")
        if name == "new":
            A = nt.compute_static_adjacency_matrix()
            S = np.zeros((n, n))
            pos = {l: i for i, l in enumerate(ref.node_labels(ev))}
            for s, t, b, e in ev:
                S[pos[s], pos[t]] += e - b
                S[pos[t], pos[s]] += e - b
            expect_close(A, S, f"{what}: static adjacency")
