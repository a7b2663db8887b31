"""C11 - partitions stay partitions under every move history (explicit-state search on the real object)."""
import copy
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import dense, expect, expect_close, expect_valid_csr
from flowstab.network_clustering import Partition

PROPERTY = "C11"
RULE = ("breadth-first search over all reachable states of a Partition of 1-4 nodes (5 in the thorough tier) under "
        "every move of a node to every cluster index and every clean-up, from every partition given as a list (with "
        "empty clusters in any place), as a node dict (any cluster numbers, any key order) or by default; the real "
        "object is advanced next to a list-of-sets model; integrity check on every list of up to 3 subsets of 3 nodes; "
        "states are the cluster lists in order")
ASSUMPTIONS = ["nodes are 0..n-1, cluster indices are valid positions in the cluster list"]
CHUNK = 1


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for r in ref.set_partitions(n):
            cl = [sorted(c) for c in ref.rgs_to_sets(r)]
            yield dict(kind="moves", n=n, cl=cl)
    for n in (1, 2, 3):
        for r in ref.set_partitions(n):
            yield dict(kind="forms", n=n, rgs=r)
    for n in (1, 2, 3):
        subs = [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
        for k in range(1, 4):
            for lst in itertools.product(subs, repeat=k):
                yield dict(kind="integrity", n=n, lst=lst)
    yield dict(kind="default")


def agree(P, M, n, what, ctx):
    """Everything the object reports against the model M (list of sets, in order)."""
    expect([set(int(x) for x in c) for c in P.cluster_list] == M, f"{what}: clusters {P.cluster_list} instead of {M}")
    expect({int(k): int(v) for k, v in P.node_to_cluster_dict.items()} == {x: i for i, c in enumerate(M) for x in c},
           f"{what}: node map {P.node_to_cluster_dict}, clusters {M}")
    expect(P.get_num_clusters() == len(M), f"{what}: {P.get_num_clusters()} clusters instead of {len(M)}")
    expect(P.get_num_clusters(non_empty=True) == sum(1 for c in M if c), f"{what}: number of non-empty clusters")
    expect([set(x) for x in P.iter_cluster_node_index()] == M and all(len(x) == len(set(x)) for x in P.iter_cluster_node_index()),
           f"{what}: iteration {list(P.iter_cluster_node_index())} instead of {M}")
    H = np.array([[1 if x in c else 0 for c in M] for x in range(n)])
    sp = P.get_indicator(sparse=True)
    expect_valid_csr(sp, what + " indicator")
    expect_close(sp, H, f"{what}: sparse indicator, clusters {M}")
    expect_close(P.get_indicator(), H, f"{what}: default indicator")
    expect_close(P.get_indicator(sparse=False), H, f"{what}: dense indicator")
    expect(P.num_nodes == n, f"{what}: num_nodes")
    P.check_integrity()
    ctx.trace()


def moves(case, ctx):
    n = case["n"]
    P0 = Partition(n, cluster_list=[set(c) for c in case["cl"]])
    M0 = [set(c) for c in case["cl"]]
    key = lambda M: tuple(tuple(sorted(c)) for c in M)
    seen = {key(M0)}
    todo = [(P0, M0, [])]
    agree(P0, M0, n, f"initial {case['cl']}", ctx)
    while todo:
        P, M, path = todo.pop(0)
        acts = [("move", k, c) for k in range(n) for c in range(len(M))] + [("clean",)]
        for a in acts:
            Q = copy.deepcopy(P)
            N = [set(c) for c in M]
            if a[0] == "move":
                Q.move_node(a[1], a[2])
                for c in N:
                    c.discard(a[1])
                N[a[2]].add(a[1])
            else:
                Q.remove_empty_clusters()
                N = [c for c in N if c]
            ctx.step()
            k = key(N)
            agree(Q, N, n, f"initial {case['cl']} after {path + [a]}", ctx)
            if k not in seen:
                seen.add(k)
                ctx.state(repr((n, k)))
                ctx.outcome(repr(ref.canon_clusters(N)))
                todo.append((Q, N, path + [a]))
        agree(P, M, n, f"initial {case['cl']} after {path} (copy moved on)", ctx)


def forms(case, ctx):
    n, rgs = case["n"], tuple(case["rgs"])
    base = ref.rgs_to_sets(rgs)
    k = len(base)
    # lists: every order of the clusters with up to two empty clusters in every place
    for order in itertools.permutations(range(k)):
        L = [base[i] for i in order]
        for empties in itertools.combinations_with_replacement(range(k + 1), 2):
            for m in (0, 1, 2):
                E = list(L)
                for pos in sorted(empties[:m], reverse=True):
                    E.insert(pos, set())
                for wrap in (lambda x: [set(c) for c in x], lambda x: tuple(set(c) for c in x)):
                    for chk in (False, True):
                        P = Partition(n, cluster_list=wrap(E), check_integrity=chk)
                        agree(P, L, n, f"cluster_list={E}", ctx)
                        ctx.state(repr(("list", n, E)))
                        ctx.step()
    # dicts: every assignment of distinct cluster numbers 0..k+1, every key order
    for nums in itertools.permutations(range(k + 2), k):
        for keys in itertools.permutations(range(n)):
            d = {x: nums[rgs[x]] for x in keys}
            P = Partition(n, node_to_cluster_dict=dict(d), check_integrity=True)
            want = [set(x for x in d if d[x] == q) for q in sorted(set(d.values()))]
            agree(P, want, n, f"node_to_cluster_dict={d}", ctx)
            ctx.state(repr(("dict", n, tuple(d.items()))))
            ctx.step()
    try:
        Partition(n, cluster_list=[set(range(n))], node_to_cluster_dict={x: 0 for x in range(n)})
    except ValueError:
        pass
    else:
        expect(False, "both input forms together were accepted")


def integrity(case, ctx):
    n = case["n"]
    lst = [set(c) for c in case["lst"]]
    whole = sorted(x for c in lst for x in c) == list(range(n))
    # a partition of n nodes is none of n - 1 or n + 1 nodes
    for n, ok, ctor in itertools.product((case["n"], case["n"] - 1, case["n"] + 1), (whole,), (True, False)):
        if n != case["n"]:
            if not whole:
                continue
            ok = False
        try:
            P = Partition(n, cluster_list=[set(c) for c in lst], check_integrity=ctor)
            if not ctor:
                P.check_integrity()
            acc = True
        except ValueError:
            acc = False
        expect(acc == ok, f"integrity check {'accepts' if acc else 'rejects'} {lst} for {n} nodes")
        ctx.step()
    ctx.state(repr((n, case["lst"])))
    ctx.trace()


def default(case, ctx):
    for n in (1, 2, 5, 20):
        P = Partition(n)
        agree(P, [{i} for i in range(n)], n, f"default partition of {n} nodes", ctx)
        if n == 20:
            M = [{i} for i in range(n)]
            for i in range(n):
                P.move_node(i, i // 5)
                for c in M:
                    c.discard(i)
                M[i // 5].add(i)
                agree(P, M, n, f"20 nodes after {i + 1} moves", ctx)
            P.remove_empty_clusters()
            agree(P, M[:4], n, "20 nodes after the clean-up", ctx)


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
