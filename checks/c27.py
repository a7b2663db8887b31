"""C27 - run_clusterings: ensembles of partitions of saved covariance integrals."""
import itertools
import os
import pickle
import shutil

import numpy as np
from scipy.sparse import coo_matrix, csr_matrix

from fsmc import ref
from fsmc.core import canon_array, expect, expect_close
from checks import batch, c25
from checks import families as fam
from flowstab.network_clustering import SparseClustering
from flowstab.sparse_stoch_mat import SparseAutocovMat

PROPERTY = "C27"
RULE = ("covariance integrals of networks with one, two and three components, isolated nodes and several resolutions, forward "
        "and backward x clustering modes (all nodes, largest component, separate components, given initial distribution, "
        "static networks) x numbers of repetitions, variation-of-information samples and processes x normalisation; every "
        "order of the files over the workers; a crash before every file operation followed by a rerun, with and without "
        "temporary results; a case is non-trivial when its ensemble of partitions is new")
ASSUMPTIONS = ["integrals as saved by run_cov_integrals", "a crash happens between two operations on files (inside one: C30)",
               "random seeds are taken from an enumerated sequence instead of the operating system"]
CHUNK = 1
NAME = "run_clusterings"


def nets():
    t = fam.tiny_events()
    return [[(0, 1, 0, 2), (1, 2, 1, 3)],
            t[4],                                                        # two components
            [(0, 1, 0, 3), (2, 3, 0, 3), (0, 4, 0, 1), (4, 5, 3, 4), (5, 6, 4, 5)],   # isolated nodes in early windows
            t[7], fam.big_events()[0],
            [(0, 1, 0, 4), (1, 2, 0, 4), (0, 2, 0, 4), (3, 4, 0, 4), (4, 5, 0, 4), (3, 5, 0, 4), (2, 3, 1, 2)],
            [(0, 1, 0, 4), (2, 3, 0, 4), (4, 5, 0, 4), (5, 6, 2, 4), (7, 8, 3, 4)],
            fam.big_events()[1],
            # graphs on which runs with different seeds find different partitions
            rough(0), rough(1), rough(0) + [(a + 11, b + 11, s, t) for a, b, s, t in rough(1)], rough(2)]


def rough(k):
    """An asymmetric graph (no ties between moves), one contact of which lasts a bit longer."""
    path = [(i, i + 1) for i in range((11, 10, 10)[k] - 1)]
    chords = [[(1, 9), (3, 5), (4, 8), (4, 10)], [(0, 8), (1, 4), (4, 9), (5, 9)], [(3, 9)]][k]
    return [(a, b, 0, 0.5) for a, b in path + chords] + [(0, 1, 0.5, 0.5625)]


MODES = [[], ["--only_largest_comp"], ["--separate_comps"], ["--not_normalize_cov_mat"], ["--compute_static_clustering"],
         ["--init_p1", "--direction", "forward"], ["--init_p1", "--direction", "backward"],
         ["--init_p1", "--direction", "forward", "--separate_comps"], ["--not_compute_clustering", "--compute_static_clustering"],
         ["--integral_rtol", "1e-7", "--separate_comps"], ["--init_p1", "--direction", "backward", "--only_largest_comp"]]


def cases(tier):
    for i in range(len(nets())):
        for m in MODES:
            for nproc in ("1", "2"):
                for seed in range(2 if tier == "quick" else 12):
                    if nproc == "1" or seed == 0:
                        yield dict(kind="run", net=i, mode=m, rep=3, extra=["--nproc_clustering", nproc], seed=seed)
        for rep, ns in ((2, None), (4, None), (4, 2), (4, 100), (5, 1)):
            yield dict(kind="run", net=i, mode=[], rep=rep, seed=1,
                       extra=["--num_varinf_samples", str(ns)] if ns else ["--save_clustering_before_nvarinf"])
        if i > 7:
            for m in (0, 2, 4, 8):
                yield dict(kind="crash", net=i, mode=MODES[m], rep=5, seed=2, extra=["--save_clustering_before_nvarinf"])
                for seed in range(2, 8 if tier == "quick" else 30):
                    yield dict(kind="run", net=i, mode=MODES[m], rep=5, extra=[], seed=seed)
    for i in (1, 3):
        for k in range(3):
            yield dict(kind="run", net=i, mode=MODES[4], rep=2, extra=[], seed=0, missing=k)
    for i in (0, 1, 2, 3):
        yield dict(kind="orders", net=i, mode=[], rep=2, seed=0, extra=[])
        for m in (0, 2, 4) if tier == "quick" else range(len(MODES)):
            for x in ([], ["--save_clustering_before_nvarinf"]):
                yield dict(kind="crash", net=i, mode=MODES[m], rep=3, seed=0, extra=x)


def integrals(case):
    """File name -> (dict to save, covariance, distribution)."""
    ev = nets()[case["net"]]
    times = ref.event_times(ev)
    n = len(ref.node_labels(ev))
    As = ref.adjacencies(ev)
    out = {}
    init = "--init_p1" in case["mode"]
    p = np.full(n, 1.0 / n)
    tag = "PT"
    if init:
        w = np.arange(1.0, n + 1)
        w[n // 2] = 0.0 if case["net"] in (2, 3) else 1.0
        p = w / w.sum()
        tag = "PTforw" if "forward" in case["mode"] else "PTback"
    for tw in (1.0, 0.25):
        Ts = [ref.expm_rw(ref.rw_laplacian(A), t / tw) for A, t in zip(As, np.diff(times))]
        last = len(times) - 1
        for a, b in ((0, last), (last, 0), (0, 1)) if tw == 1.0 else ((1, 0),):
            k0, k1 = sorted((a, b))
            T = times[k1] - times[k0]
            S = ref.flow_integrals(Ts[k0:k1], times[k0:k1 + 1], p1=p, reverse=a > b)[-1]
            pp = np.outer(p, p)
            name = f"nn_tau_w{tw:.3e}_{tag}_{a:06d}_to_{b:06d}.pickle"
            M = (S + pp) * T
            M[np.abs(M) < 1e-12] = 0.0          # the components of the integral are those of its pattern
            S = M / T - pp
            if init:
                back = "backward" in case["mode"]
                z = {("ITPTback" if back else "ITPT"): csr_matrix(np.triu(M)),
                     ("p2" if back else "p1"): csr_matrix(p), "integration_time": T}
            else:
                z = {"ITPT": coo_matrix(np.triu(M * n * n)), "integration_time": T}
            out[name] = (z, S, p, sum(As[k] * (times[k + 1] - times[k]) for k in range(k0, k1)), (k0, k1))
    return out


def canon(c):
    return tuple(sorted(tuple(sorted(int(x) for x in s)) for s in c))


def ensemble(res, suffix, S, rep, n, what, ns=None):
    """Counter, stabilities and averages of one ensemble agree with each other and with the covariance S."""
    cnt = res["clust_counter" + suffix]
    stab = list(res["stabilites" + suffix])
    expect(sum(cnt.values()) == rep and len(stab) == rep and len(res["seeds" + suffix]) == rep,
           f"{what}: {sum(cnt.values())} partitions, {len(stab)} stabilities, {len(res['seeds' + suffix])} seeds for {rep} runs")
    expect(len(set(res["seeds" + suffix])) == rep, f"{what}: the runs share seeds: {res['seeds' + suffix]}")
    parts = [canon(c) for c, k in cnt.items() for _ in range(k)]
    for c in parts:
        expect(ref.is_partition(c, n), f"{what}: {c} is not a partition of {n} nodes")
    expect_close(sorted(stab), sorted(ref.stability(S, c) for c in parts), f"{what}: stabilities of {dict(cnt)}", tol=1e-7)
    best = canon(res["best_cluster" + suffix])
    expect(best in parts, f"{what}: best partition {best} was not found in the runs {dict(cnt)}")
    expect_close(res["best_stab" + suffix], max(stab), f"{what}: best stability")
    expect_close(ref.stability(S, best), max(stab), f"{what}: stability of the best partition {best}", tol=1e-7)
    expect_close(res["avg_stab" + suffix], np.mean(stab), f"{what}: average stability")
    expect_close(res["avg_nclust" + suffix], np.mean([len(c) for c in parts]), f"{what}: average number of clusters")
    pairs = [ref.nvi([set(x) for x in a], [set(x) for x in b]) for a, b in itertools.combinations(parts, 2)]
    v = res["nvarinf" + suffix]
    if ns is None or ns >= len(pairs):
        expect_close(v, np.mean(pairs), f"{what}: variation of information of {dict(cnt)}", tol=1e-8)
    else:
        means = [np.mean(x) for x in itertools.combinations(pairs, ns)]
        expect(min(abs(v - m) for m in means) < 1e-8, f"{what}: variation of information {v} of no {ns} pairs of {dict(cnt)}")
    return parts, best


def locally_optimal(S, best, what):
    """No two clusters of the result of a Louvain search are better merged."""
    for a, b in itertools.combinations([sorted(c) for c in best], 2):
        expect(S[np.ix_(a, b)].sum() + S[np.ix_(b, a)].sum() <= 1e-7, f"{what}: merging {a} and {b} of {best} improves the stability")


def components(S, pp):
    lab = ref.components((np.abs(S + pp) > 1e-14).astype(float))
    return [[x for x in range(len(lab)) if lab[x] == c] for c in range(max(lab) + 1)]


def verify_file(case, res, name, item, what, ctx):
    z, S, p, A, _ = item
    n = S.shape[0]
    mode = case["mode"]
    expect(res["num_repeat"] == case["rep"], f"{what}: num_repeat")
    ns = c25.opt(case["extra"], "--num_varinf_samples")
    ns = int(ns) if ns else None
    comps = components(S, np.outer(p, p))
    expect(abs(res["ITPT_sum"] - 1) < 1e-6 and res["max_S_row_diff"] < 1e-6, f"{what}: normalisation of the integral")
    if "--only_largest_comp" in mode or "--separate_comps" in mode:
        zero = sum(1 for c in comps)
        expect(res["ncomp"] == zero, f"{what}: {res['ncomp']} components instead of {zero}")
        lab = [int(x) for x in res["comp_label"]]
        expect(sorted([x for x in range(len(lab)) if lab[x] == c] for c in set(lab)) == sorted(comps),
               f"{what}: components {lab} instead of {comps}")
    if "--not_compute_clustering" not in mode:
        if "--only_largest_comp" in mode:
            lcc = sorted(int(x) for x in res["largest_comp_nodes"])
            big = max(len(c) for c in comps)
            expect(len(lcc) == big and set(lcc) in [set(c) for c in comps], f"{what}: largest component {lcc} of {comps}")
            groups = [[x for x in range(n) if x not in lcc]] + [[x] for x in lcc]
            S2 = np.array([[S[np.ix_(a, b)].sum() if a and b else 0.0 for b in groups] for a in groups])
            parts, best = ensemble(res, "", S2, case["rep"], len(groups), what, ns)
            if "--init_p1" not in mode and len(lcc) < n:
                locally_optimal(S2, best, what)
        elif "--separate_comps" in mode:
            # nodes without probability belong to no cluster
            live = [x for x in range(n) if p[x] > 0 or len([c for c in comps if x in c][0]) > 1]
            back = {x: i for i, x in enumerate(live)}
            r2 = dict(res)
            for k in ("best_cluster",):
                r2[k] = [{back[int(x)] for x in c} for c in res[k]]
            r2["clust_counter"] = {tuple(tuple(back[int(x)] for x in s) for s in c): v for c, v in res["clust_counter"].items()}
            parts, best = ensemble(r2, "", S[np.ix_(live, live)], case["rep"], len(live), what, ns)
            for c in parts:
                for s in c:
                    expect(any({live[x] for x in s} <= set(k) for k in comps), f"{what}: cluster {s} spans components {comps}")
        else:
            parts, best = ensemble(res, "", S, case["rep"], n, what, ns)
            locally_optimal(S, best, what)
            PT = csr_matrix(S + np.outer(p, p))
            if not mode:
                found = []
                for s in res["seeds"]:
                    cov = SparseAutocovMat(PT=PT.copy(), p1=1 / n, p2=1 / n, PT_symmetric=True)
                    cl = SparseClustering(p1=p, p2=p, T=cov.PT, S=cov, rnd_seed=s)
                    cl.find_louvain_clustering()
                    found.append(ref.stability(S, cl.partition.cluster_list))
                expect_close(found, res["stabilites"], f"{what}: stabilities of the runs with the recorded seeds", tol=1e-7)
        ctx.outcome(repr((sorted(parts), best)))
    if "--compute_static_clustering" in mode:
        A = np.asarray(A, float)
        d = A.sum(1)
        if (d > 0).all():
            # Markov stability at time 1 of the (symmetric) aggregated network
            w, V = np.linalg.eigh(np.eye(n) - A / np.sqrt(np.outer(d, d)))
            T = (V * np.exp(-w)) @ V.T * np.sqrt(d[None, :] / d[:, None])
            Sst = ref.autocov(d / d.sum(), T)
            parts, best = ensemble(res, "_static", Sst, case["rep"], n, what + " (static)", ns)
            ctx.outcome(repr(("static", sorted(parts), best)))
    ctx.step()


def compare(case, d, items, what, ctx):
    want = {"clusters_" + f for f in items}
    names = set(batch.finished(d))
    if "--save_clustering_before_nvarinf" in case["extra"]:
        names = {f for f in names if not f.startswith("tmpclusters_")}
    expect(names == want, f"{what}: files {sorted(names - want)} too many, {sorted(want - names)} missing")
    for f, item in items.items():
        with open(os.path.join(d, "clusters_" + f), "rb") as fo:
            res = pickle.load(fo)
        c = case
        if gap(case, items) == item[4]:
            c = dict(case, mode=[m for m in case["mode"] if m != "--compute_static_clustering"])
            expect(not [k for k in res if k.endswith("_static")], f"{what}: {f}: static clusters of no network: {sorted(res)}")
        verify_file(c, res, f, item, f"{what}: {f}", ctx)


def gap(case, items):
    """The interval whose static network is missing."""
    k = sorted({i[4] for i in items.values()})
    return k[case["missing"] % len(k)] if "missing" in case else None


def setup(case, data):
    items = integrals(case)
    if "--compute_static_clustering" in case["mode"]:
        items = {f: i for f, i in items.items() if (np.asarray(i[3]).sum(1) > 0).all()}
    if case["kind"] in ("orders", "crash", "torn"):
        items = dict(list(items.items())[:3])
    for f, i in items.items():
        with open(os.path.join(data, f), "wb") as fo:
            pickle.dump(i[0], fo)
        if "--compute_static_clustering" in case["mode"]:
            if gap(case, items) == i[4]:
                continue
            with open(os.path.join(data, f"nn_static_A_{i[4][0]:06d}_to_{i[4][1]:06d}.pickle"), "wb") as fo:
                pickle.dump(csr_matrix(i[3]), fo)
    # what the other steps leave in the directory is no integral
    for f in ("nn_tau_w1.000e+00_temp_integration_000000_to_000001.pickle", "other_tau_w1.000e+00_PT_000000_to_000001.pickle"):
        with open(os.path.join(data, f), "wb") as fo:
            pickle.dump({"x": 1}, fo)
    return items


def argv(case, data, out):
    return (["--datadir", data, "--savedir", out, "--net_name", "nn", "--nproc_files", "2", "--num_repeat", case["rep"]]
            + case["mode"] + case["extra"])


def check(case, ctx):
    with batch.scratch() as d:
        data = os.path.join(d, "data")
        os.mkdir(data)
        items = setup(case, data)
        count = itertools.count()

        def fresh():
            out = os.path.join(d, f"out{next(count)}")
            os.mkdir(out)
            return out

        def run(out, **kw):
            seeds = itertools.count(1000 * case["seed"])
            ctx.trace()
            return batch.run_script(NAME, argv(case, data, out), out,
                                    urandom=lambda k: next(seeds).to_bytes(k, "big"), **kw)

        what = f"{NAME} {' '.join(case['mode'] + case['extra'])} num_repeat {case['rep']} on integrals of {nets()[case['net']]}"

        def verify(out, r, note):
            try:
                compare(case, out, items, what + note, ctx)
            except Exception as e:
                e.args = (f"{e}\n--- output of the script:\n{batch.errors(r.out)}",) + e.args[1:]
                raise
            ctx.state(repr((case, note)))

        if case["kind"] == "run":
            out = fresh()
            verify(out, run(out), "")
            verify(out, run(out), " (run twice)")
        elif case["kind"] == "orders":
            for p in itertools.permutations(range(len(items))):
                out = fresh()
                verify(out, run(out, order=p), f" in order {p}")
        else:
            r0 = run(fresh())
            for c in range(r0.writes):
                out = fresh()
                r = run(out, crash=c)
                expect(r.crashed, f"{what}: {r.writes} file operations, then {r0.writes}")
                verify(out, run(out), f" interrupted before file {c} ({r0.log[c]}) and run again")
                shutil.rmtree(out)
