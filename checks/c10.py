"""C10 - Louvain never worsens the partition, for every node order (controlled shuffles on the real search)."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import Violation, canon_array, expect
from checks import clusterfam as cf
from flowstab.network_clustering import Clustering, SparseClustering
from flowstab.sparse_stoch_mat import SparseAutocovMat

PROPERTY = "C10"
RULE = ("every node order of the first two sweeps (3 nodes; first sweep for 4 nodes) and two orders of each later "
        "sweep, for every sign pattern of a 3-node covariance and every support of a 3-node transition matrix (dense and "
        "sparse), symmetric 4-node sign patterns and graphs, from every starting partition; an execution is one complete "
        "search; outcomes are final partitions per covariance")
ASSUMPTIONS = ["the order of the nodes is the only random choice; it is taken from shuffle/permutation of the RandomState",
               "local optimality under merging is decided for covariances without ties"]
CHUNK = 1


class Orders(np.random.RandomState):
    """RandomState whose shuffles are driven by a choice list and recorded."""

    def __init__(self, choices, options):
        super().__init__(0)
        self.choices, self.options, self.log = choices, options, []

    def seed(self, *a, **k):
        pass

    def _perm(self, m):
        i = len(self.log)
        opts = self.options(i, m)
        c = self.choices[i] if i < len(self.choices) else 0
        self.log.append((c, len(opts)))
        return opts[c]

    def shuffle(self, x):
        p = self._perm(len(x))
        x[:] = [x[i] for i in p] if isinstance(x, list) else np.asarray(x)[list(p)]

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        return x[list(self._perm(len(x)))]


def options_full(i, m):
    ident = list(range(m))
    if (i == 0 and m <= 4) or (i == 1 and m <= 3):
        return [list(p) for p in itertools.permutations(range(m))]
    if i < 6 and m > 1:
        return [ident, ident[::-1]] if i > 0 or m > 6 else [ident[k:] + ident[:k] for k in range(m)] + [ident[::-1]]
    return [ident]


def options_few(i, m):
    ident = list(range(m))
    if i == 0:
        return [ident[k:] + ident[:k] for k in range(m)] + [ident[::-1]]
    if i < 3 and m > 1:
        return [ident, ident[::-1]]
    return [ident]


def options_one(i, m):
    return options_full(0, m) if i == 0 and m <= 3 else [list(range(m))]


def schedules(run, options):
    """Depth-first over all choice sequences; run(rnd) executes one search."""
    choices = []
    while True:
        rnd = Orders(choices, options)
        run(rnd, choices)
        log = rnd.log
        choices = [c for c, _ in log]
        while choices and choices[-1] + 1 >= log[len(choices) - 1][1]:
            choices.pop()
        if not choices:
            return
        choices[-1] += 1


def cases(tier):
    for n in (1, 2):
        for bits in range(2 ** cf.n_cells(n, False)):
            yield dict(kind="S", n=n, bits=bits, sym=False, opt="full")
    for bits in range(64):
        yield dict(kind="S", n=3, bits=bits, sym=False, opt="full")
        yield dict(kind="S", n=3, bits=bits, sym=False, opt="full", scales=True)
    for rows in cf.row_patterns(3):
        yield dict(kind="T", n=3, rows=rows, p="generic", opt="full")
    for g in cf.GRAPHS:
        for t in (0.2, 1.0):
            yield dict(kind="G", g=g, t=t, opt="few")
    for bits in range(64):
        yield dict(kind="S", n=4, bits=bits, sym=True, opt="full")
        yield dict(kind="S", n=4, bits=bits, sym=True, opt="few", scales=True)
    for bits in range(1024 if tier == "thorough" else 32):
        yield dict(kind="S", n=5, bits=bits * 31 % 1024 if tier == "quick" else bits, sym=True, opt="few", starts="few")
    yield dict(kind="zero")
    yield dict(kind="seeds")
    if tier == "thorough":
        for bits in range(4096):
            yield dict(kind="S", n=4, bits=bits, sym=False, opt="few")


def search(mk, S, neigh, start, case, name, options, ctx, ties=False):
    n = len(S)
    s0 = ref.stability(S, start)
    eps = 1e-12 + 1e-12 * np.abs(S).sum()
    seen = set()

    def run(rnd, choices):
        what = f"{case} {name} start {start} orders {choices}:"
        given = [set(c) for c in start]
        C = mk(cluster_list=given, rnd_state=rnd)
        expect(abs(C.compute_stability() - s0) <= eps, f"{what} stability of the start {C.compute_stability()!r}")
        C.find_louvain_clustering(save_progress=True)
        expect(given == [set(c) for c in start], f"{what} the given starting clusters were changed to {given}")
        cl = [set(int(x) for x in c) for c in C.partition.cluster_list]
        expect(ref.is_partition(cl, n), f"{what} result {cl} is not a partition of {n} nodes")
        expect({int(k): int(v) for k, v in C.partition.node_to_cluster_dict.items()} ==
               {x: i for i, c in enumerate(cl) for x in c}, f"{what} node map does not match the clusters")
        st = ref.stability(S, cl)
        expect(abs(C.compute_stability() - st) <= eps, f"{what} reported stability {C.compute_stability()!r} instead of {st!r}")
        expect(st >= s0 - eps, f"{what} stability fell from {s0!r} to {st!r} with {cl}")
        prog, parts = list(C.stability_progress), list(C.partition_progress)
        expect(len(prog) == len(parts) and len(prog) >= 1, f"{what} progress of {len(prog)} and {len(parts)} steps")
        for v, P in zip(prog, parts):
            expect(ref.is_partition(P.cluster_list, n), f"{what} recorded partition {P.cluster_list}")
            expect(abs(v - ref.stability(S, P.cluster_list)) <= eps, f"{what} recorded stability {v!r} of {P.cluster_list}")
        expect(ref.canon_clusters(parts[0].cluster_list) == ref.canon_clusters(start), f"{what} progress does not begin with the start")
        expect(all(b >= a - eps for a, b in zip(prog, prog[1:])), f"{what} progress decreases: {prog}")
        if np.abs(S).max() >= 1e-6 / n ** 2:
            expect(ref.canon_clusters(parts[-1].cluster_list) == ref.canon_clusters(cl), f"{what} progress does not end with the result")
        if not ties and len(start) == n:
            for a, b in itertools.combinations(cl, 2):
                if any(neigh[i, j] or neigh[j, i] for i in a for j in b):
                    ia, ib = sorted(a), sorted(b)
                    g = S[np.ix_(ia, ib)].sum() + S[np.ix_(ib, ia)].sum()
                    expect(g <= eps, f"{what} merging {a} and {b} of the result would gain {g!r}")
        # a second search from the result
        if len(choices) <= 1:
            C.find_louvain_clustering()
            cl2 = [set(int(x) for x in c) for c in C.partition.cluster_list]
            expect(ref.is_partition(cl2, n) and ref.stability(S, cl2) >= st - eps, f"{what} second search gives {cl2} from {cl}")
        ctx.trace()
        ctx.step(len(rnd.log))
        seen.add(repr(ref.canon_clusters(cl)))
    schedules(run, options)
    for k in seen:
        ctx.outcome(canon_array(S) + k.encode())
    ctx.count("searches_configured")


def check(case, ctx):
    if case["kind"] == "zero":
        return zero(case, ctx)
    if case["kind"] == "seeds":
        return seeds(case, ctx)
    makers = []
    ties = False
    if case["kind"] == "S":
        S = cf.signed_s(case["n"], case["bits"], case["sym"], case.get("scales", False))
        n = case["n"]
        makers.append(("dense S", lambda **k: Clustering(S=S, **k)))
        neigh = np.ones((n, n))
    else:
        if case["kind"] == "T":
            n = case["n"]
            T, p1 = cf.t_from_rows(n, case["rows"]), cf.p_vec(n, case["p"])
        else:
            T, p1 = cf.graph_t(case["g"], case["t"])
            n = len(T)
            ties = True
        S = ref.autocov(p1, T)
        neigh = T * p1[:, None] > 0
        makers.append(("dense T", lambda **k: Clustering(T=T, p1=p1, **k)))
        makers.append(("sparse T", lambda **k: SparseClustering(T=csr_matrix(T), p1=p1, **k)))
        if case["kind"] == "G":
            F = SparseAutocovMat.from_T_forward(csr_matrix(T), p1)
    starts = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)] if n <= 4 and case["kind"] != "T" else \
        [[{i} for i in range(n)], [set(range(n))], [set(range(0, n, 2)), set(range(1, n, 2))] if n > 1 else [{0}]]
    if case["kind"] == "T":
        starts = starts[:1] + starts[2:]
    for (name, mk), start in itertools.product(makers, starts):
        ctx.state(canon_array(S) + name.encode() + repr(start).encode())
        search(mk, S, neigh, start, case, name, {"full": options_full, "few": options_few, "one": options_one}[case["opt"]], ctx, ties)
    if case["kind"] == "G":
        W = F.toarray()
        search(lambda **k: SparseClustering(S=F, **k), W, W != 0, starts[0], case, "forward covariance", options_few, ctx, True)


def zero(case, ctx):
    for n in (1, 2, 3, 5):
        p = cf.p_vec(n, "generic")
        U = np.tile(p, (n, 1))
        for start in ([{i} for i in range(n)], [set(range(n))]):
            for name, mk in (("dense S", lambda **k: Clustering(S=np.zeros((n, n)), **k)),
                             ("dense T", lambda **k: Clustering(T=U, p1=p, **k)),
                             ("sparse T", lambda **k: SparseClustering(T=csr_matrix(U), p1=p, **k)),
                             ("sparse forward", lambda **k: SparseClustering(S=SparseAutocovMat.from_T_forward(csr_matrix(U), p), **k))):
                C = mk(cluster_list=[set(c) for c in start])
                C.find_louvain_clustering()
                expect(ref.canon_clusters(C.partition.cluster_list) == [tuple(range(n))],
                       f"zero covariance of {n} nodes, {name}: {C.partition.cluster_list}")
                expect(abs(C.compute_stability()) < 1e-12, "stability of the zero covariance")
                ctx.trace()
                ctx.step()
                ctx.state(repr((n, name, len(start))))


def seeds(case, ctx):
    for g, t in (("barbell6", 0.5), ("cliques9", 0.7), ("ring8", 1.0)):
        T, p = cf.graph_t(g, t)
        for mk in (lambda **k: Clustering(T=T, p1=p, **k), lambda **k: SparseClustering(T=csr_matrix(T), p1=p, **k)):
            for s in range(12):
                res = []
                for noise in range(5):
                    np.random.seed(noise)
                    C = mk(rnd_seed=s) if noise != 1 else mk()
                    C.find_louvain_clustering(**[{}, dict(rnd_seed=s), {}, dict(verbose=11), dict(save_progress=True, verbose=2)][noise])
                    res.append(ref.canon_clusters(C.partition.cluster_list))
                expect(all(x == res[0] for x in res), f"{g} seed {s}: different results {res} (plain, seed given later, plain, "
                       "verbose, with progress)")
                # limited numbers of iterations
                S = ref.autocov(p, T)
                start = ref.stability(S, [{i} for i in range(len(T))])
                for meta, sub in itertools.product((1, 2, 1000), (1, 2, 1000)):
                    C = mk(rnd_seed=s)
                    C.find_louvain_clustering(n_meta_iter_max=meta, n_sub_iter_max=sub)
                    cl = C.partition.cluster_list
                    expect(ref.is_partition(cl, len(T)), f"{g} seed {s} at most {meta}, {sub} iterations: {cl}")
                    expect(ref.stability(S, cl) >= start - 1e-12, f"{g} seed {s} at most {meta}, {sub} iterations: the stability fell")
                    expect(abs(C.compute_stability() - ref.stability(S, cl)) < 1e-9, f"{g} seed {s} at most {meta}, {sub} iterations: reported stability")
                    if (meta, sub) == (1000, 1000):
                        expect(ref.canon_clusters(cl) == res[0], f"{g} seed {s}: limits that are not reached change the result")
                ctx.trace(14)
                ctx.step()
                ctx.state(repr((g, s)))
