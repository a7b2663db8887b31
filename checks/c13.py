"""C13 - cluster similarity measures obey their definitions."""
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import expect
from flowstab.network_clustering import (Partition, avg_norm_var_information, jaccard_distance,
                                         norm_mutual_information, norm_var_information, sort_clusters)

PROPERTY = "C13"
RULE = ("all ordered pairs of partitions of 1-5 nodes (6 in the thorough tier) in every pair of input forms (list of sets, "
        "list of lists, node dict with and without unused numbers, Partition, Partition with an emptied cluster; clusters in "
        "two orders), all triples for the triangle inequality, all lists of 2-3 partitions of 3 nodes for the average, all "
        "pairs x thresholds for the sorting; non-trivial when the pair of values is new")
ASSUMPTIONS = ["both partitions cover the nodes 0..n-1", "with sampling, the average is that of some set of pairs of the requested size"]
CHUNK = 8


def cases(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        for r in ref.set_partitions(n):
            yield dict(kind="pairs", n=n, a=r)
    for n in range(1, 6):
        yield dict(kind="triples", n=n)
    for m in (2, 3) if tier == "quick" else (2, 3, 4):
        for combo in itertools.product(range(5), repeat=m):
            yield dict(kind="avg", n=3, combo=combo)
    yield dict(kind="avg", n=4, combo=[0, 3, 7, 14, 7])
    for n in range(1, 5 if tier == "quick" else 6):
        for r in ref.set_partitions(n):
            yield dict(kind="sort", n=n, a=r)
    yield dict(kind="large")


def forms(cl, n):
    """Equivalent inputs of one partition."""
    k = len(cl)
    yield "list", [set(c) for c in cl]
    yield "reversed list", [set(c) for c in cl[::-1]]
    yield "lists", [sorted(c) for c in cl]
    yield "dict", {x: i for i, c in enumerate(cl) for x in c}
    yield "relabelled dict", {x: k - 1 - i for i, c in enumerate(cl) for x in sorted(c, reverse=True)}
    yield "dict with unused numbers", {x: 2 * i + 1 for i, c in enumerate(cl) for x in c}
    yield "Partition", Partition(n, cluster_list=[set(c) for c in cl])
    P = Partition(n, cluster_list=[set(c) for c in cl])
    P.cluster_list.append(set())
    yield "Partition with an empty cluster", P


def jac(c1, c2, n):
    m1 = {x: i for i, c in enumerate(c1) for x in c}
    m2 = {x: i for i, c in enumerate(c2) for x in c}
    both = either = 0
    for x, y in itertools.combinations(range(n), 2):
        a, b = m1[x] == m1[y], m2[x] == m2[y]
        both += a and b
        either += a or b
    return 0.0 if either == 0 else 1 - both / either


def near(got, want, what):
    expect(np.ndim(got) == 0 and abs(float(got) - want) < 1e-12 * 10, f"{what}: {got!r} instead of {want!r}")


def pairs(case, ctx):
    n = case["n"]
    a = ref.rgs_to_sets(tuple(case["a"]))
    for r in ref.set_partitions(n):
        b = ref.rgs_to_sets(r)
        v, m, j = ref.nvi(a, b), ref.nmi(a, b), jac(a, b, n)
        m = 1.0 if m is None else m
        eq = ref.canon_clusters(a) == ref.canon_clusters(b)
        for (fa, A), (fb, B) in itertools.product(forms(a, n), forms(b, n)):
            if n > 4 and fa != fb and "list" != fa != fb != "list":
                continue
            what = f"{a} as {fa}, {b} as {fb}"
            keep = (repr(A), repr(B)) if not isinstance(A, Partition) and not isinstance(B, Partition) else None
            g = norm_var_information(A, B)
            near(g, v, f"norm_var_information of {what}")
            expect((abs(g) < 1e-10) == eq, f"norm_var_information of {what} is {g!r}")
            if m is not None:
                g = norm_mutual_information(A, B)
                near(g, m, f"norm_mutual_information of {what}")
                expect((abs(g - 1) < 1e-10) == eq, f"norm_mutual_information of {what} is {g!r}")
            if not isinstance(A, Partition) and not isinstance(B, Partition):
                near(jaccard_distance(A, B), j, f"jaccard_distance of {what}")
                expect(keep == (repr(A), repr(B)), f"inputs changed: {what}")
            if isinstance(A, list) and isinstance(B, list):
                near(norm_var_information(A, B, N=n, use_clust_list=True), v, f"norm_var_information (list form) of {what}")
            ctx.step()
        ctx.trace()
        ctx.state(repr((n, case["a"], r)))
        ctx.outcome(repr((n, round(v, 10), m if m is None else round(m, 10), round(j, 10))))


def triples(case, ctx):
    n = case["n"]
    P = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)]
    for name, f in (("norm_var_information", norm_var_information), ("jaccard_distance", jaccard_distance)):
        D = np.array([[f([set(c) for c in x], [set(c) for c in y]) for y in P] for x in P], dtype=float)
        expect(np.allclose(D, D.T, atol=1e-10), f"{name} is not symmetric for {n} nodes")
        expect((D >= -1e-12).all() and (D <= 1 + 1e-10).all(), f"{name} leaves [0,1] for {n} nodes")
        bad = np.argwhere(D[:, None, :] > D[:, :, None] + D[None, :, :] + 1e-10)
        expect(bad.size == 0, f"{name}: triangle inequality fails for "
               f"{[P[i] for i in bad[0]] if bad.size else None}")
        ctx.step(len(P) ** 3)
    ctx.trace()
    ctx.state(repr(("triples", n)))


def avg(case, ctx):
    P = [ref.rgs_to_sets(r) for r in ref.set_partitions(case["n"])]
    L = [P[i] for i in case["combo"]]
    vals = [ref.nvi(x, y) for x, y in itertools.combinations(L, 2)]
    for form in (lambda c: [set(x) for x in c], lambda c: [sorted(x) for x in c]):
        arg = [form(c) for c in L]
        near(avg_norm_var_information(arg), np.mean(vals), f"avg_norm_var_information of {L}")
        for k in range(1, len(vals) + 2):
            g = avg_norm_var_information(arg, num_samples=k)
            ok = {round(float(np.mean(c)), 9) for c in itertools.combinations(vals, min(k, len(vals)))}
            expect(round(float(g), 9) in ok or any(abs(g - o) < 1e-8 for o in ok),
                   f"avg_norm_var_information of {L} with {k} samples: {g!r} is not the mean of {k} pairs")
            ctx.step()
    ctx.trace()
    ctx.state(repr(case))


def sort(case, ctx):
    n = case["n"]
    a = ref.rgs_to_sets(tuple(case["a"]))
    for r in ref.set_partitions(n):
        model = ref.rgs_to_sets(r)
        for m in (model, model[::-1], [c | {n} for c in model[:1]], [{n, n + 1}]):
            for th in (0.0, 0.3, 1.0):
                for arg in ([set(c) for c in a], [set(c) for c in a[::-1]]):
                    res = sort_clusters([set(c) for c in arg], [set(c) for c in m], thresh_ratio=th)
                    expect(isinstance(res, list) and ref.canon_clusters(res) == ref.canon_clusters(a),
                           f"sort_clusters({arg}, {m}, {th}) = {res}")
                    ctx.step()
        res = sort_clusters([set(c) for c in a], [set(c) for c in a])
        expect(res == a, f"sorting {a} like itself gives {res}")
        ctx.trace()
        ctx.state(repr((n, case["a"], r)))


def large(case, ctx):
    n = 24
    Ps = [[set(range(i, n, k)) for i in range(k)] for k in (1, 2, 3, 5, 8, 12, 24)] + \
         [[set(range(i, min(i + k, n))) for i in range(0, n, k)] for k in (2, 7, 11)]
    for a, b in itertools.product(Ps, Ps):
        near(norm_var_information(a, b), ref.nvi(a, b), f"norm_var_information of {a}, {b}")
        if ref.nmi(a, b) is not None:
            near(norm_mutual_information(a, b), ref.nmi(a, b), f"norm_mutual_information of {a}, {b}")
        near(jaccard_distance(a, b), jac(a, b, n), f"jaccard_distance of {a}, {b}")
        expect(ref.canon_clusters(sort_clusters(a, b)) == ref.canon_clusters(a), f"sort_clusters({a}, {b})")
        ctx.step()
        ctx.trace()


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
