"""C02 - results depend only on the current settings, never on the history."""
import copy
import itertools
import warnings

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close, h64
from checks import families as fam
from flowstab.flow_stability import FlowStability
from flowstab.network_clustering import FlowIntegralClustering

PROPERTY = "C02"
RULE = ("all sequences of 3 calls (4 over two reduced vocabularies; thorough: 4) out of computing calls with different windows, "
        "rates, approximations, storage, directions and saving options on one network object, for three (thorough: five) networks (one of "
        "instantaneous contacts), and all sequences of 3 complete analyses with different settings on one FlowStability "
        "object, redoing every step or only the steps it asks for; after each call every matrix, covariance and partition "
        "present is compared with the reference for the current settings; non-trivial when (history, results) is new")
ASSUMPTIONS = ["recomputing the Laplacians or inter-event matrices may drop matrices derived from the earlier ones",
               "products need the inter-event matrices of their rate first",
               "a partition is found once per flow clustering (a repeated search keeps it)"]
CHUNK = 2
CASE_TIMEOUT = 300

NETS = {
    "chain": [(0, 1, 0, 2), (1, 2, 1, 4), (0, 2, 5, 6)],
    "gap": [(0, 1, 0.5, 1.25), (2, 3, 0.5, 3.0), (0, 2, 4.0, 6.5), (1, 3, 4.0, 5.0)],
    "tri": [(0, 1, 0, 5), (1, 2, 1, 5), (2, 0, 2, 3)],
    "neg": [(0, 1, -2, -1), (1, 2, -1, 0), (0, 2, 0, 1.5)],
    "pairs": [(0, 1, 0, 1), (2, 3, 1, 2), (1, 2, 2, 3), (3, 0, 3, 4), (4, 0, 0, 4)],
}
INST = [(0, 1, 0.0), (1, 2, 0.0), (0, 2, 1.5), (2, 3, 2.0), (0, 1, 4.0), (1, 3, 4.0)]

L = lambda **k: ("lap", k)
I = lambda **k: ("inter", k)
N = lambda **k: ("lin", k)
T = lambda **k: ("T", k)
U = lambda **k: ("Tlin", k)
VOC = [L(), L(t_start=1.0), L(t_start=1.0, t_stop=4.0, save_adjacencies=True),
       I(lamda=0.5), I(lamda=0.5, use_sparse_stoch=True), I(lamda=0.5, fix_tau_k=True), I(lamda=2.0, dense_expm=False), I(),
       N(lamda=0.5), N(lamda=0.5, t_s=3), N(lamda=0.5, use_sparse_stoch=True), N(lamda=3.0, t_s=3, fix_tau_k=True),
       T(lamda=0.5), T(lamda=0.5, reverse_time=True), T(lamda=0.5, save_intermediate=False), T(lamda=0.5, tol=1e-8),
       T(lamda=0.5, force_csr=True), T(lamda=2.0),
       U(lamda=0.5), U(lamda=0.5, reverse_time=True), U(lamda=0.5, t_s=3, save_intermediate=False),
       ("static", {}), ("static", dict(start_time=0.5, end_time=2.5)), ("cluster", {})]
SHORT = [L(), L(t_start=1.0), I(lamda=0.5), I(lamda=0.5, use_sparse_stoch=True), I(lamda=0.5, fix_tau_k=True), N(lamda=0.5),
         N(lamda=0.5, use_sparse_stoch=True), T(lamda=0.5), T(lamda=0.5, reverse_time=True), T(lamda=0.5, save_intermediate=False),
         T(lamda=0.5, tol=0.05), U(lamda=0.5), U(lamda=0.5, reverse_time=True)]

TOLS = [L(), L(t_start=1.0), I(lamda=0.5), I(lamda=0.5, use_sparse_stoch=True), T(lamda=0.5), T(lamda=0.5, tol=1e-8), T(lamda=0.5, tol=0.05),
        T(lamda=0.5, tol=0.3), T(lamda=0.5, tol=0.3, reverse_time=True), T(lamda=0.5, tol=0.3, save_intermediate=False),
        T(lamda=0.5, tol=0.3, force_csr=True)]
VOCS = {"full": VOC, "short": SHORT, "tols": TOLS}

CONF = [dict(),
        dict(ts=[0.7]), dict(ts=[0.7, 5.0]), dict(ts=[5.0], dir=1), dict(dir=-1), dict(t0=1.0), dict(t1=4.0, dir=1), dict(t0=1.0, t1=4.0),
        dict(lin=10), dict(lin=3), dict(lin=3, ts=[0.7, 5.0]), dict(ss=True, dir=-1), dict(fix=True, ts=[0.7, 5.0]), dict(net="pairs"), dict(net="pairs", ss=True, ts=[0.7, 5.0]),
        dict(grid=True), dict(net="neg"), dict(net="neg", t0=0.0), dict(net="neg", t1=0.0)]
BASE = dict(net="chain", t0=None, t1=None, ts=[2.0], dir=0, lin=None, ss=False, fix=False, grid=False)

QUICK_SKIP = {4, 9, 12}          # members of SHORT left out as first calls in the quick tier
CONF_SKIP = [dict(ts=[0.7]), dict(dir=-1), dict(t1=4.0, dir=1), dict(lin=3), dict(net="pairs")]


def cases(tier):
    for name in ["chain", "gap", "inst"] if tier == "quick" else list(NETS) + ["inst"]:
        for a in range(len(VOC)):
            yield dict(kind="net", net=name, voc="full", pre=[a], depth=3 if tier == "quick" else 4)
    for name in (["chain"] if tier == "quick" else NETS):
        for a, b in itertools.product(range(len(SHORT)), repeat=2):
            if tier == "quick" and QUICK_SKIP & {a, b}:
                continue
            yield dict(kind="net", net=name, voc="short", pre=[a, b], depth=4 if tier == "quick" else 5)
    for name in (["chain"] if tier == "quick" else NETS):
        for i, a in itertools.product((2, 3), range(len(TOLS))):
            yield dict(kind="net", net=name, voc="tols", pre=[0, i, a], depth=5 if tier == "quick" else 6)
    for a, b in itertools.product(range(len(CONF)), repeat=2):
        if tier == "quick" and (CONF[a] in CONF_SKIP or CONF[b] in CONF_SKIP):
            continue
        yield dict(kind="analysis", pre=[a, b])


# ------------------------------------------------------------------ one network object

class Model:
    """What the object must hold: parameters of the last request for everything not invalidated since."""

    def __init__(self, name):
        self.name = name
        self.lap = None
        self.adj = False
        self.inter, self.lin, self.T, self.U = {}, {}, {}, {}

    def copy(self):
        return copy.deepcopy(self)


_C = {}


def events(name):
    return ref.inst_events(INST) if name == "inst" else NETS[name]


def base(name, win):
    """(times, adjacencies, durations) of a window of a network."""
    key = (name, win)
    if key not in _C:
        ev = events(name)
        times = ref.event_times(ev)
        k0, k1 = ref.window(times, *win)
        As = [ref.active_adjacency(ev, ref.node_labels(ev), times[k], times[k + 1]) for k in range(k0, k1)]
        _C[key] = (times, As, np.diff(times)[k0:k1], times[k0:k1 + 1])
    return _C[key]


def mats(name, win, lam, fix, t_s):
    key = (name, win, lam, fix, t_s, "m")
    if key not in _C:
        times, As, taus, _ = base(name, win)
        if fix or name == "inst":
            taus = np.ones(len(As))
        if t_s is None:
            r = [ref.expm_rw(ref.rw_laplacian(A), lam * t) for A, t in zip(As, taus)]
        else:
            r = [ref.lin_approx(A, lam * t, t_s) for A, t in zip(As, taus)]
        _C[key] = r or [np.eye(len(ref.node_labels(events(name))))]
    return _C[key]


def trimmed(name, win, lam, par, args):
    """Products with a tolerance as computed on a new object."""
    key = (name, win, lam, par, args)
    if key not in _C:
        net = fam.inst_network(INST) if name == "inst" else fam.network(NETS[name])
        net.compute_laplacian_matrices(t_start=win[0], t_stop=win[1])
        kw = {} if name == "inst" else dict(fix_tau_k=par[0])
        net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=par[1], **kw)
        net.compute_transition_matrices(**dict(args))
        _C[key] = net.T[lam]
    return _C[key]


def default_rate(name):
    times = ref.event_times(events(name))
    return 1 / np.median(np.diff(times))


def call(net, m, op):
    k, a = op
    lam = a.get("lamda")
    ts = a.get("t_s", 10)
    if k == "lap":
        net.compute_laplacian_matrices(**a)
        m.__init__(m.name)
        m.lap = (a.get("t_start"), a.get("t_stop"))
        m.adj = a.get("save_adjacencies", False)
    elif k in ("inter", "lin"):
        (net.compute_inter_transition_matrices if k == "inter" else net.compute_lin_inter_transition_matrices)(**a)
        if m.lap is None:
            m.lap = (None, None)
        lam = default_rate(m.name) if lam is None else lam
        par = (a.get("fix_tau_k", False), a.get("use_sparse_stoch", False))
        d, key, prod = (m.inter, lam, m.T) if k == "inter" else (m.lin, (lam, ts), m.U)
        if d.get(key) != par:
            prod.pop(key, None)
        d[key] = par
    elif k in ("T", "Tlin"):
        key, d, prod = (lam, m.inter, m.T) if k == "T" else ((lam, ts), m.lin, m.U)
        f = net.compute_transition_matrices if k == "T" else net.compute_lin_transition_matrices
        if key not in d:
            try:
                f(**a)
            except Exception:
                return True
            expect(False, f"{k}({a}) without inter-event matrices was not refused")
        f(**a)
        prod[key] = (a.get("reverse_time", False), a.get("save_intermediate", True), a.get("tol"), tuple(sorted(a.items())))
    elif k == "static":
        A = dense(net.compute_static_adjacency_matrix(**a))
        ev = events(m.name)
        n = len(ref.node_labels(ev))
        tm = ref.event_times(ev)
        s, e = a.get("start_time", tm[0]), a.get("end_time", tm[-1])
        W = np.zeros((n, n))
        for x, y, b, c in ev:
            w = max(0, min(c, e) - max(b, s))
            W[x, y] += w
            W[y, x] += w
        if m.name != "inst":
            expect_close(A, W, "static adjacency")
    elif k == "cluster":
        if 0.5 not in m.inter or not len(base(m.name, m.lap)[1]):
            return True
        tl = base(m.name, m.lap)[3]
        F = FlowIntegralClustering(T_inter_list=net.inter_T[0.5], time_list=list(tl), rtol=1e-12)
        want = ref.flow_integrals(mats(m.name, m.lap, 0.5, m.inter[0.5][0], None), tl)
        for x, y in zip(F.I_list, want):
            expect_close(x if isinstance(x, np.ndarray) else x.toarray(), y, "covariance", tol=1e-7)
    return True


def agree(net, m, what):
    if m.lap is None:
        return []
    times, As, taus, tl = base(m.name, m.lap)
    got = []
    expect(len(net.laplacians) == len(As), f"{what}: {len(net.laplacians)} Laplacians instead of {len(As)}")
    for k, (X, A) in enumerate(zip(net.laplacians, As)):
        expect_close(X, ref.rw_laplacian(A), f"{what}: Laplacian {k}")
    if m.adj and hasattr(net, "adjacencies"):
        for k, (X, A) in enumerate(zip(net.adjacencies, As)):
            expect_close(X, A, f"{what}: adjacency {k}")

    def compare(X, W, w, tol=1e-8):
        expect(len(X) == len(W), f"{what}: {w}: {len(X)} matrices instead of {len(W)}")
        for k, (x, y) in enumerate(zip(X, W)):
            expect_close(x, y, f"{what}: {w} number {k}", tol=tol)
            got.append(canon_array(dense(x)))

    inter = getattr(net, "inter_T", {})
    lin = getattr(net, "inter_T_lin", {})
    for lam, par in m.inter.items():
        expect(lam in inter, f"{what}: no inter-event matrices for rate {lam}")
        compare(inter[lam], mats(m.name, m.lap, lam, par[0], None), f"inter-event matrix for rate {lam}")
    for (lam, ts), par in m.lin.items():
        expect(lam in lin and ts in lin[lam], f"{what}: no linear inter-event matrices for rate {lam}, {ts}")
        compare(lin[lam][ts], mats(m.name, m.lap, lam, par[0], ts), f"linear matrix for rate {lam}, t_s {ts}")
    # nothing that was not requested since the last recomputation may remain
    expect(set(inter) <= set(m.inter), f"{what}: matrices of an earlier window remain for rates {set(inter) - set(m.inter)}")
    expect({(x, y) for x in lin for y in lin[x]} <= set(m.lin), f"{what}: linear matrices of an earlier window remain")
    for name, store, model, par in (("T", getattr(net, "T", {}), m.T, m.inter), ("T_lin", getattr(net, "T_lin", {}), m.U, m.lin)):
        have = set(store) if name == "T" else {(x, y) for x in store for y in store[x]}
        expect(set(model) <= have, f"{what}: no products {name} for {set(model) - have}")
        expect(have <= set(model), f"{what}: products {name} of earlier matrices remain for {have - set(model)}")
        for key, (rev, interm, tol, args) in model.items():
            lam, ts = (key, None) if name == "T" else key
            X = store[key] if name == "T" else store[lam][ts]
            W = ref.products(mats(m.name, m.lap, lam, par[key][0], ts), rev)
            n = len(W[0])
            compare(X if interm else [X], W if interm else W[-1:], f"{name} for {key} reversed={rev} all={interm} tol={tol}",
                    tol=1e-8 if not tol else 1e-8 + 4 * tol * n * len(W))
            if tol:
                W = trimmed(m.name, m.lap, lam, par[key], args)
                compare(X if interm else [X], W if interm else [W], f"{name} for {key} compared with a new object, {args}", tol=1e-9)
    return got


def net(case, ctx):
    voc = VOCS[case["voc"]]
    mk = (lambda: fam.inst_network(INST)) if case["net"] == "inst" else (lambda: fam.network(NETS[case["net"]]))
    if case["net"] == "inst":
        voc = [o for o in voc if "fix_tau_k" not in o[1] and o[0] not in ("static", "cluster")]

    def rec(net, m, path, left):
        for i, op in enumerate(voc):
            if len(path) < len(case["pre"]) and i != case["pre"][len(path)]:
                continue
            n2, m2 = (copy.deepcopy(net), m.copy())
            p2 = path + [op]
            what = f"network {case['net']} after {p2}"
            call(n2, m2, op)
            ctx.step()
            got = agree(n2, m2, what)
            ctx.state(repr((case["net"], p2)))
            ctx.outcome(b"".join(got))
            if left > 1:
                rec(n2, m2, p2, left - 1)
            else:
                ctx.trace()
    rec(mk(), Model(case["net"]), [], case["depth"])


# ------------------------------------------------------------------ one analysis object

def run(fs, c, prev, lazy, seed=3):
    """Bring the analysis to configuration c; lazy: redo only the steps the object asks for."""
    if prev is None or c["net"] != prev["net"]:
        fs.temporal_network = fam.network(NETS[c["net"]])
    for attr, key in (("t_start", "t0"), ("t_stop", "t1"), ("time_scale", "ts"), ("time_direction", "dir")):
        if prev is None or not lazy or c[key] != prev[key]:
            setattr(fs, attr, c[key])
    ikw = dict(linear_approx=True, t_s=c["lin"]) if c["lin"] else {}
    if c["ss"]:
        ikw["use_sparse_stoch"] = True
    if c["fix"]:
        ikw["fix_tau_k"] = True
    fkw = {}
    if c["grid"]:
        ev = NETS[c["net"]]
        t = base(c["net"], (c["t0"], c["t1"]))[3]
        fkw["integral_time_grid"] = [t[0], t[-1]] if len(t) < 3 else [t[0], t[len(t) // 2], t[-1]]
        if c["dir"] != 1:
            fkw = {}
    stage = fs.state.current.value
    if not lazy or stage < 2:
        fs.compute_laplacian_matrices()
    if not lazy or stage < 3 or any(c[k] != prev[k] for k in ("lin", "ss", "fix")):
        fs.compute_inter_transition_matrices(**ikw)
        Ts = getattr(fs.temporal_network, "inter_T_lin" if c["lin"] else "inter_T")
        for t in c["ts"]:
            for X in Ts[1 / t][c["lin"]] if c["lin"] else Ts[1 / t]:
                expect(("SparseStochMat" in type(X).__name__) == c["ss"], f"{c}: matrices of type {type(X)} for time scale {t}")
    if not lazy or fs.state.current.value < 4 or c["grid"] != prev["grid"]:
        fs.set_flow_clustering(**fkw)
    if not lazy or fs.state.current.value < 5:
        fs.find_louvain_clustering(rnd_seed=seed)
    return fs


def outcome(fs, c):
    out = {}
    for name, d, on in (("forward", fs.flow_clustering_forward, c["dir"] >= 0), ("backward", fs.flow_clustering_backward, c["dir"] <= 0)):
        if on:
            for t in c["ts"]:
                F = d[t]
                out[name, t] = ([dense(x) for x in F.I_list],
                                [ref.canon_clusters(F.partition[k].cluster_list) for k in range(len(F.I_list))],
                                [ref.canon_clusters(F.partition[k].cluster_list) for k in sorted(F.partition)])
    return out


_FRESH = {}


def fresh(c):
    key = repr(sorted(c.items()))
    if key not in _FRESH:
        _FRESH[key] = outcome(run(FlowStability(), c, None, False), c)
        if not c["grid"]:
            for (name, t), (Is, _, _) in _FRESH[key].items():
                win = (c["t0"], c["t1"])
                want = ref.flow_integrals(mats(c["net"], win, 1 / t, c["fix"], c["lin"]), base(c["net"], win)[3], reverse=name == "backward")
                for x, y in zip(Is, want):
                    expect_close(x, y, f"fresh analysis with {c}: {name} covariance for time scale {t}")
    return _FRESH[key]


def analysis(case, ctx):
    for lazy in (False, True):
        for last in range(len(CONF)):
            fs, prev = FlowStability(), None
            idx = case["pre"] + [last]
            for j, i in enumerate(idx):
                c = dict(BASE, **CONF[i])
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    run(fs, c, prev, lazy)
                    want = fresh(c)
                ctx.step(4)
                got = outcome(fs, c)
                what = f"analyses {[CONF[q] for q in idx[:j + 1]]} (only the necessary steps: {lazy})"
                for k, (Is, cl, _) in want.items():
                    G = got[k]
                    expect(len(G[0]) == len(Is), f"{what}: {k}: {len(G[0])} covariances instead of {len(Is)}")
                    for x, y in zip(G[0], Is):
                        expect_close(x, y, f"{what}: {k}: covariance")
                    expect(G[1] == cl, f"{what}: {k}: partitions {G[1]} instead of {cl}")
                prev = c
            ctx.state(repr((idx, lazy)))
            ctx.outcome(repr([(k, v[1]) for k, v in sorted(got.items())]).encode() + b"".join(canon_array(x) for v in got.values() for x in v[0]))
            ctx.trace()


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
