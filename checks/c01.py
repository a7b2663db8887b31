"""C01 - workflow steps run exactly when their prerequisites hold (lockstep with a reference state machine)."""
import copy
import contextlib
import io
import itertools
import warnings
from collections import deque

import numpy as np

from fsmc import ref
from fsmc.core import Violation, canon_array, dense, expect, expect_close, h64
from checks import families as fam
from flowstab.flow_stability import FlowStability, States

PROPERTY = "C01"
RULE = ("breadth-first search over all states of a reference state machine (stage, highest stage so far, network, time "
        "window, time scales, direction, approximation, available clusterings) reachable by any sequence of setter and "
        "step calls with valid, empty and invalid values; every state is reached on the real object by its shortest path "
        "in lockstep and every operation is tried from a copy of it; in addition all operation sequences of length 3 (4 "
        "thorough) over a reduced vocabulary from a fresh and from a finished analysis, and all constructor arguments; "
        "non-trivial when (state, operation, reaction) is new")
ASSUMPTIONS = ["a time scale or direction of None counts as not set (documented by ignore_none)",
               "an object that is no temporal network clears the network",
               "lists of time scales hold numbers; the network object is not shared with another analysis"]
CHUNK = 8
CASE_TIMEOUT = 300

EV = {"A": [(0, 1, -1, 1), (1, 2, 0, 3)],
      "B": [(0, 1, -1, 2), (1, 2, -1, 2), (2, 3, 0, 3), (0, 3, 2, 4)]}
METHODS = ["set_temporal_network", "compute_laplacian_matrices", "compute_inter_transition_matrices",
           "set_flow_clustering", "find_louvain_clustering", "find_louvain_clustering"]


def kw(ev):
    return dict(source_nodes=[e[0] for e in ev], target_nodes=[e[1] for e in ev],
                starting_times=[e[2] for e in ev], ending_times=[e[3] for e in ev])


# ------------------------------------------------------------------ the model

class M:
    """Reference state machine of an analysis."""
    F = ("stage", "top", "net", "t0", "t1", "ts", "dir", "lin", "fwd", "bwd", "lap", "inter")

    def __init__(self):
        self.stage, self.top, self.net, self.t0, self.t1 = 0, 0, None, None, None
        self.ts, self.dir, self.lin, self.fwd, self.bwd = None, None, None, False, False
        self.lap = self.inter = None

    def key(self):
        return tuple(getattr(self, f) for f in self.F if f not in ("lap", "inter"))

    def copy(self):
        m = M()
        m.__dict__.update(self.__dict__)
        return m

    def back(self, s):
        self.stage = min(self.stage, s)

    def done(self, s):
        self.stage = s
        self.top = max(self.top, s)


def steps_missing(m, name):
    """None if the step may run, otherwise why not."""
    need = {"lap": 1, "inter": 2, "fc": 3, "find": 4}[name]
    if m.stage < need:
        return f"stage {m.stage} < {need}"
    if m.net is None:
        return "no network"
    if need >= 2 and m.ts is None:
        return "no time scale"
    if need >= 3 and m.dir is None:
        return "no direction"
    if need >= 4 and not (m.fwd and m.bwd):
        return "no flow clustering"
    return None


OPS = [
    ("net", "A"), ("net", "B"), ("net", None), ("net", "x"), ("net", "same"),
    ("setnet", "A"), ("setnet", None), ("setnet", "bad"),
    ("t0", None), ("t0", 0), ("t1", None), ("t1", 2),
    ("ts", 2.0), ("ts", [4, 1]), ("ts", None), ("ts", -1), ("ts", 0), ("ts", [1, -2]), ("ts", "x"),
    ("setts", 2.0), ("setts", "log"), ("setts", None), ("setts", -3),
    ("dir", 0), ("dir", 1), ("dir", -1), ("dir", None), ("dir", 2),
    ("lap", {}), ("lap", {"nonsense": 1}),
    ("inter", {}), ("inter", {"linear_approx": True}), ("inter", {"time_scale": 2.0}), ("inter", {"lamda": 0.5}),
    ("inter", {"linear_approx": True, "time_scale": -1.0}), ("inter", {"time_scale": "x"}), ("inter", {"time_scale": 2.0, "lamda": 9.0}),
    ("inter", {"linear_approx": True, "nonsense": 1}), ("inter", {"nonsense": 1}), ("fc", {}), ("fc", {"p1": "bad"}), ("fc", {"nonsense": 1}),
    ("find", {"rnd_seed": 1}), ("find", {"nonsense": 1}),
    ("fcf", "ok"), ("fcb", "ok"), ("fcf", "wrong"), ("fcb", "wrong"),
    ("fcf", "none"), ("fcb", "none"), ("ts", "alias"), ("ts", "iter"), ("ts", "gen"), ("look", None),
]
SHORT = [("net", "A"), ("net", "same"), ("net", None), ("t0", 0), ("t1", None), ("ts", 2.0), ("ts", [4, 1]), ("ts", None), ("ts", -1),
         ("dir", 0), ("dir", 1), ("dir", -1), ("dir", None), ("lap", {}), ("inter", {}), ("inter", {"linear_approx": True}),
         ("fc", {}), ("fc", {"p1": "bad"}), ("find", {"rnd_seed": 1})]
SEARCH = [o for o in OPS if o not in (("ts", -1), ("ts", 0), ("ts", [1, -2]), ("ts", "x"), ("ts", "alias"), ("ts", "iter"), ("ts", "gen"), ("setts", -3), ("dir", 2),
                                    ("fcf", "none"), ("fcb", "none"), ("inter", {"time_scale": 2.0, "lamda": 9.0}))
          and "nonsense" not in str(o[1]) and o[0] not in ("look", "setnet", "setts")] + [("setnet", None)]
LOG = [1.0, 10.0]


def model(m, op):
    """(reaction, next model state); reaction is 'set', 'ran', 'refused' or an exception name."""
    k, v = op
    n = m.copy()
    if k == "net":
        if v == "same":
            if m.net is None:
                n.back(1)
                n.stage = 0
                return "set", n
            n.back(1)
            return "set", n
        n.net = v if v in ("A", "B") else None
        if n.net is None:
            n.stage = 0
        else:
            n.done(max(n.stage, 1))
            n.back(1)
            n.top = max(m.top, 1)
        return "set", n
    if k == "setnet":
        if v == "bad":
            return "Exception", m
        n.net = v
        n.done(1)
        return "ran", n
    if k in ("t0", "t1"):
        setattr(n, k, v)
        n.back(1)
        return "set", n
    if k in ("ts", "setts"):
        if v == "x":
            return "TypeError", m
        vals = LOG if v == "log" else [1, 4] if v in ("alias", "iter", "gen") else [] if v is None else [v] if not isinstance(v, list) else v
        if any(x <= 0 for x in vals):
            return "ValueError", m
        n.ts = tuple(vals) if vals else None
        n.back(2)
        return "set", n
    if k == "dir":
        if v == 2:
            return "AssertionError", m
        n.dir = v
        n.back(3)
        return "set", n
    if k == "look":
        return "set", m
    if k in ("fcf", "fcb"):
        have = m.fwd if k == "fcf" else m.bwd
        if v == "wrong":
            return "AssertionError", m
        if v == "none":
            return "set", m
        n.fwd, n.bwd = (True, m.bwd) if k == "fcf" else (m.fwd, True)
        n.back(4)
        return "set", n
    why = steps_missing(m, k)
    if why:
        return "refused", m
    if "nonsense" in v:
        return "TypeError", m
    if k == "lap":
        n.lap = (m.net, m.t0, m.t1)
        n.done(2)
    elif k == "inter":
        t = v.get("time_scale", 1 / v["lamda"] if "lamda" in v else None)
        if t == "x":
            return "TypeError", m
        if t is not None and t <= 0:
            return "ValueError", m
        if t is not None:
            n.ts = (t,)
        n.lin = 10 if v.get("linear_approx") else None
        n.done(3)
    elif k == "fc":
        ok = "p1" not in v
        n.fwd = ok or m.dir < 0
        n.bwd = ok or m.dir > 0
        n.done(4)
    elif k == "find":
        n.done(5)
    return "ran", n


# ------------------------------------------------------------------ the real object

def clustering_of(ev, reverse):
    from flowstab.network_clustering import FlowIntegralClustering
    Ls = ref.laplacians(ev)
    times = ref.event_times(ev)
    Ts = [ref.expm_rw(L, 0.5 * (times[i + 1] - times[i])) for i, L in enumerate(Ls)]
    return FlowIntegralClustering(T_inter_list=Ts, time_list=times, reverse_time=reverse)


def said(fs, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fs.help(*args, **kw)
    return out.getvalue()


def docs(name):
    """First lines of the documentation of a step or setting."""
    x = getattr(FlowStability, name)
    full = [x.__doc__] + ([x.fset.__doc__] if isinstance(x, property) else [])
    return [next(l.strip() for l in d.splitlines() if l.strip()) for d in full if d and d.strip()]


def apply(fs, m, op):
    """Execute the operation; returns (reaction, return value)."""
    k, v = op
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = None
            if k == "net":
                fs.temporal_network = fam.network(EV[v]) if v in EV else fs.temporal_network if v == "same" else v
                return "set", None
            if k in ("t0", "t1"):
                setattr(fs, {"t0": "t_start", "t1": "t_stop"}[k], v)
                return "set", None
            if k == "ts" and v == "alias":
                mine = [1, 4]
                fs.time_scale = mine
                mine.append(-5)                 # the caller's list is his own
                return "set", None
            if k == "ts" and v in ("iter", "gen"):
                fs.time_scale = iter([1, 4]) if v == "iter" else (x for x in (1, 4))
                return "set", None
            if k == "ts":
                fs.time_scale = v
                return "set", None
            if k == "setts":
                fs.set_time_scale(**(dict(start=0, stop=1, num=2) if v == "log" else {} if v is None else dict(value=v)))
                return "set", None
            if k == "dir":
                fs.time_direction = v
                return "set", None
            if k in ("fcf", "fcb"):
                rev = (k == "fcb") != (v == "wrong")
                if v == "none":
                    t = (m.ts or (2.0,))[0]
                    name = "flow_clustering_forward" if k == "fcf" else "flow_clustering_backward"
                    setattr(fs, name, (t, "no clustering"))
                    expect(getattr(fs, name)[t] is None, f"something that is no clustering was taken for one: {getattr(fs, name)[t]}")
                    return "set", None
                for t in (m.ts or (2.0,)):
                    setattr(fs, "flow_clustering_forward" if k == "fcf" else "flow_clustering_backward",
                            (t, clustering_of(EV[m.net or "A"], rev)))
                return "set", None
            if k == "look":
                repr(fs), said(fs, verbose=True), said(fs, "unknown")
                miss, nxt = fs.state.next
                text = said(fs)
                for s in list(miss) + [nxt]:
                    expect(s in text, f"help() does not mention {s} (missing parameters {miss}, next step {nxt})\n{text}")
                for s in METHODS + ["t_start", "t_stop", "time_scale", "time_direction", "temporal_network"]:
                    text = said(fs, s)
                    for d in docs(s):
                        expect(d in text, f"help({s!r}) does not say {d!r}\n{text}")
                list(fs.time_scale), list(fs.lamda), fs.state.next, fs.state.missing_parameters
                return "set", None
            if k == "setnet":
                a = {} if v is None else dict(source_nodes=[0, 1], target_nodes=[1]) if v == "bad" else kw(EV[v])
                r = fs.set_temporal_network(**a)
            elif k == "lap":
                r = fs.compute_laplacian_matrices(**v)
            elif k == "inter":
                r = fs.compute_inter_transition_matrices(**v)
            elif k == "fc":
                a = dict(v)
                if a.get("p1") == "bad":
                    a["p1"] = np.full(17, 1 / 17)
                r = fs.set_flow_clustering(**a)
            elif k == "find":
                r = fs.find_louvain_clustering(**v)
        except Violation:
            raise
        except Exception as e:
            return type(e).__name__, e
        mine = [w for w in ws if issubclass(w.category, UserWarning) and "can" in str(w.message) and "run" in str(w.message)]
    return ("ran" if r is not None else "refused" if mine else "silent"), r


def digest(fs):
    """Everything an analysis holds that a call that does nothing must not change."""
    out = [fs.t_start, fs.t_stop, list(fs.time_scale), fs.time_direction, fs.state.current.value, fs.state.next,
           id(fs.temporal_network)]
    net = fs.temporal_network
    if net is not None:
        for L in getattr(net, "laplacians", []):
            out.append(canon_array(dense(L)))
        for lam, Ts in sorted(getattr(net, "inter_T", {}).items()):
            out.append((lam, [canon_array(dense(T)) for T in Ts]))
        for lam, d in sorted(getattr(net, "inter_T_lin", {}).items()):
            for t_s, Ts in sorted(d.items()):
                out.append((lam, t_s, [canon_array(dense(T)) for T in Ts]))
    for fc in (fs.flow_clustering_forward, fs.flow_clustering_backward):
        for t, F in sorted(fc.items()):
            out.append((t, [canon_array(dense(I)) for I in F.I_list],
                        [None if k not in F.partition else ref.canon_clusters(F.partition[k].cluster_list) for k in range(len(F.I_list))]))
    return h64(repr(out))


_REF = {}


def reference(net, t0, t1, ts, lin, reverse):
    key = (net, t0, t1, ts, lin, reverse)
    if key not in _REF:
        ev = EV[net]
        times = ref.event_times(ev)
        k0, k1 = ref.window(times, t0, t1)
        As = ref.adjacencies(ev, t0, t1)
        tl = times[k0:k1 + 1]
        Ts = []
        for i, A in enumerate(As):
            x = (tl[i + 1] - tl[i]) / ts
            Ts.append(ref.lin_approx(A, x, lin) if lin else ref.expm_rw(ref.rw_laplacian(A), x))
        _REF[key] = (As, Ts, ref.flow_integrals(Ts, tl, reverse=reverse), tl)
    return _REF[key]


def results(fs, m, k, what):
    """The results of the step that has just run belong to the current settings."""
    if m.net is None:
        return
    net = fs.temporal_network
    if k == "lap":
        want = ref.laplacians(EV[m.net], m.t0, m.t1)
        expect(len(net.laplacians) == len(want), f"{what}: {len(net.laplacians)} Laplacians instead of {len(want)}")
        for a, b in zip(net.laplacians, want):
            expect_close(a, b, f"{what}: Laplacian")
    elif k == "inter":
        for t in m.ts:
            Ts = reference(m.net, m.t0, m.t1, t, m.lin, False)[1]
            got = net.inter_T[1 / t] if not m.lin else net.inter_T_lin[1 / t][m.lin]
            expect(len(got) == len(Ts), f"{what}: {len(got)} matrices instead of {len(Ts)} for time scale {t}")
            for a, b in zip(got, Ts):
                expect_close(a, b, f"{what}: inter-event matrix for time scale {t}")
    elif k in ("fc", "find"):
        n = len(ref.node_labels(EV[m.net]))
        for name, d, on in (("forward", fs.flow_clustering_forward, m.dir >= 0), ("backward", fs.flow_clustering_backward, m.dir <= 0)):
            if not on:
                continue
            for t in m.ts:
                if k == "fc" and not (m.fwd if name == "forward" else m.bwd):
                    expect(d.get(t) is None, f"{what}: the clustering of earlier settings stands in for the failed one ({name})")
                    continue
                expect(d.get(t) is not None, f"{what}: no {name} clustering for time scale {t}")
                F = d[t]
                if k == "fc":
                    want = reference(m.net, m.t0, m.t1, t, m.lin, name == "backward")[2]
                    expect(len(F.I_list) == len(want), f"{what}: {len(F.I_list)} {name} integrals instead of {len(want)}")
                    for a, b in zip(F.I_list, want):
                        expect_close(a, b, f"{what}: {name} covariance for time scale {t}")
                else:
                    for q in range(len(F.I_list)):
                        cl = F.partition[q].cluster_list
                        expect(ref.is_partition(cl, n), f"{what}: {cl} is no partition of {n} nodes")


def agree(fs, m, what):
    st = fs.state.current
    expect(fs.t_start == m.t0 and fs.t_stop == m.t1, f"{what}: window {fs.t_start}, {fs.t_stop} instead of {m.t0}, {m.t1}")
    ts = list(fs.time_scale)
    expect(ts == (list(m.ts) if m.ts else [None]) or (m.ts and np.allclose(ts, m.ts)), f"{what}: time scales {ts} instead of {m.ts}")
    expect(fs.time_direction == (m.dir or 0), f"{what}: direction {fs.time_direction} instead of {m.dir}")
    net = fs.temporal_network
    expect((net is None) == (m.net is None), f"{what}: network {net} instead of {m.net}")
    if net is None:
        expect(st.value == m.stage <= 1, f"{what}: stage {st} without a network")
        return
    expect(net.num_nodes == len(ref.node_labels(EV[m.net])), f"{what}: another network than {m.net}")
    expect(st.value == m.stage, f"{what}: stage {st} instead of {list(States)[m.stage]}")
    # every step is refused exactly if the model says so: reported next step and missing parameters
    miss, nxt = fs.state.next
    expect(nxt == METHODS[m.stage], f"{what}: next step {nxt} instead of {METHODS[m.stage]}")
    want = set()
    if m.stage >= 2 and m.ts is None:
        want.add("time_scale")
    if m.stage >= 3 and m.dir is None:
        want.add("time_direction")
    if m.stage < 4:
        expect(set(miss) == want, f"{what}: missing parameters {miss} instead of {want}")
    else:
        expect(bool(miss) == bool(want or not (m.fwd and m.bwd)), f"{what}: missing parameters {miss}")


def do(fs, m, op, what, ctx):
    """One operation on both; returns the next model state."""
    before = digest(fs)
    held = {r: {t: (F, [F.partition[q] if q in F.partition else None for q in range(len(F.I_list))]) for t, F in d.items() if F is not None}
            for r, d in (("forward", fs.flow_clustering_forward), ("backward", fs.flow_clustering_backward))}
    r, n = model(m, op)
    got, ret = apply(fs, m, op)
    ctx.step()
    ctx.outcome(repr((m.key(), op, got)))
    if r == "Exception":
        expect(got not in ("set", "ran", "refused", "silent"), f"{what}: accepted invalid input")
    else:
        expect(got == r, f"{what}: {got} ({ret!r}) instead of {r} in state {dict(zip(M.F, m.key()))} ({'' if op[0] not in ('lap', 'inter', 'fc', 'find') else steps_missing(m, op[0])})")
    if r == "ran":
        expect(ret is fs, f"{what}: the step returned {ret!r} instead of the analysis")
    if r not in ("set", "ran") or op[0] == "look":
        expect(digest(fs) == before, f"{what}: {r}, but the analysis has changed")
    if op[1] == "none":
        return n
    agree(fs, n, what)
    if r == "ran":
        results(fs, n, op[0], what)
    if r == "ran" and op[0] in ("fc", "find") and m.dir:
        # only the requested direction is computed
        name, d = ("backward", fs.flow_clustering_backward) if m.dir > 0 else ("forward", fs.flow_clustering_forward)
        now = {t: F for t, F in d.items() if F is not None}
        expect(set(now) == set(held[name]) and all(now[t] is held[name][t][0] for t in now)
               and all((now[t].partition[q] if q in now[t].partition else None) is p for t in now for q, p in enumerate(held[name][t][1])),
               f"{what}: direction {m.dir} requested, but the {name} clusterings changed")
    return n


def search(ops):
    """Model states reachable by the operations with their shortest path."""
    m = M()
    seen = {m.key(): []}
    todo = deque([(m, [])])
    while todo:
        m, path = todo.popleft()
        yield path
        for op in ops:
            r, n = model(m, op)
            if r in ("set", "ran") and n.key() not in seen:
                seen[n.key()] = 1
                todo.append((n, path + [op]))


STEPS = [("lap", {}), ("inter", {}), ("fc", {}), ("find", {"rnd_seed": 1})]
DONE = [("net", "A"), ("ts", 2.0), ("dir", 0), ("lap", {}), ("inter", {}), ("fc", {}), ("find", {"rnd_seed": 1})]
SMALL = [o for o in SEARCH if o not in (("net", "B"), ("t1", 2), ("t1", None), ("inter", {"lamda": 0.5}), ("inter", {"linear_approx": True, "time_scale": -1.0}))]


def cases(tier):
    for path in search(SEARCH if tier == "thorough" else SMALL):
        yield dict(kind="state", path=path)
    d = 3 if tier == "quick" else 4
    for start in ([], DONE):
        for pre in itertools.product(SHORT, repeat=d - 2):
            yield dict(kind="seq", start=start, pre=list(pre))
    for k in range(len(DONE) + 1):
        yield dict(kind="pair", path=DONE[:k])
    for nt, ts in itertools.product(("A", None, "x"), (None, 2.0, [4, 1], -1, "x")):
        yield dict(kind="ctor", net=nt, ts=ts)


def tup(op):
    return (op[0], op[1])


def run_path(path, what, ctx):
    fs, m = FlowStability(), M()
    for i, op in enumerate(path):
        m = do(fs, m, tup(op), f"{what}, operation {i} of {path}", ctx)
    return fs, m


def state(case, ctx):
    fs, m = run_path(case["path"], "path", ctx)
    ctx.state(repr(m.key()))
    for op in OPS:
        fs2 = copy.deepcopy(fs)
        n = do(fs2, m, op, f"after {case['path']}: {op}", ctx)
        ctx.trace()
        if op[0] in ("net", "t0", "t1", "ts", "dir") and op[1] != "none":
            for o in STEPS:                  # whatever the operation left behind, steps that may not run are refused
                if steps_missing(n, o[0]):
                    do(fs2, n, o, f"after {case['path']}: {op}, {o}", ctx)
        elif model(m, op)[0] not in ("set", "ran", "refused"):
            # a call that failed changes nothing: the next step gives what it would have given without it
            for o in STEPS[max(n.stage - 1, 0):]:
                if not steps_missing(n, o[0]):
                    n = do(fs2, n, o, f"after {case['path']}: {op} (failed), {o}", ctx)
    agree(fs, m, f"after {case['path']} (copies went on)")


def seq(case, ctx):
    fs0, m0 = run_path(case["start"], "start", ctx)
    pre = [tup(o) for o in case["pre"]]
    for o in pre:
        m0 = do(fs0, m0, o, f"after {case['start']}: {pre}", ctx)
    for a in SHORT:
        fs1 = copy.deepcopy(fs0)
        m1 = do(fs1, m0, a, f"after {case['start']}: {pre + [a]}", ctx)
        for b in SHORT:
            fs2 = copy.deepcopy(fs1)
            m2 = do(fs2, m1, b, f"after {case['start']}: {pre + [a, b]}", ctx)
            ctx.state(repr((case["start"], pre, a, b)))
            ctx.trace()
            # the remaining steps in order show that nothing was left behind
            for o in [("lap", {}), ("inter", {}), ("fc", {}), ("find", {"rnd_seed": 1})]:
                if m2.stage >= {"lap": 1, "inter": 2, "fc": 3, "find": 4}[o[0]]:
                    m2 = do(fs2, m2, o, f"after {case['start']}: {pre + [a, b]} and the steps up to {o[0]}", ctx)


def pair(case, ctx):
    """Two analyses at the same time: neither notices the other."""
    fs, m = run_path(case["path"], "path", ctx)
    for k in range(len(DONE) + 1):
        for op in OPS:
            other, mo = run_path(DONE[:k], "other analysis", ctx)
            what = f"analysis after {case['path']}, another one after {DONE[:k]} and then {op}"
            agree(fs, m, what)
            mo = do(other, mo, op, what, ctx)
            agree(fs, m, what)
            ctx.trace()
            ctx.state(repr((case["path"], k, op)))
    for op in DONE[len(case["path"]):]:
        m = do(fs, m, op, f"after {case['path']} and other analyses: {op}", ctx)


def ctor(case, ctx):
    nt, ts = case["net"], case["ts"]
    for t0, t1, d in itertools.product((None, 0), (None, 2), (None, 0, 1, -1, 2)):
        args = dict(temporal_network=fam.network(EV[nt]) if nt in EV else nt, time_scale=ts, t_start=t0, t_stop=t1, time_direction=d)
        what = f"FlowStability({nt}, {ts}, {t0}, {t1}, {d})"
        m = M()
        bad = None
        for op in (("net", nt), ("t0", t0), ("t1", t1), ("ts", ts), ("dir", d)):
            r, m = model(m, op)
            if r != "set":
                bad = r
                break
        ctx.step()
        ctx.state(what)
        try:
            fs = FlowStability(**args)
            got = None
        except Exception as e:
            got = type(e).__name__
        expect(got == bad, f"{what}: {got} instead of {bad}")
        ctx.outcome(repr((what, got)))
        if bad:
            continue
        agree(fs, m, what)
        for op in DONE[3:]:
            m = do(fs, m, op, f"{what} and then {op}", ctx)
        ctx.trace()


def check(case, ctx):
    globals()[case["kind"]](case, ctx)
