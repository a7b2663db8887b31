"""C28 - an interrupted computation never passes for a finished one."""
import contextlib
import copy
import io
import itertools
import sys
import warnings

from fsmc import ref
from fsmc.core import Violation, dense, expect, expect_close
from checks import c15, families as fam
from flowstab.flow_stability import FlowStability
from flowstab.network_clustering import FlowIntegralClustering

PROPERTY = "C28"
RULE = ("every computing call on a network (10 networks, from every state reached by up to 2 calls), every step of an analysis "
        "(first and repeated, with changed settings, linear, sparse) and every search of a flow clustering, stopped by "
        "KeyboardInterrupt or MemoryError at every single call it makes into NumPy or SciPy (all of them: the stop is moved on "
        "by one until the computation completes); then: what is stored is as before, as finished, or absent; the repeated "
        "call gives the uninterrupted result; every other call fails or gives a result an uninterrupted run gives; a case is "
        "non-trivial when the stop leaves another state behind")
ASSUMPTIONS = ["stops are the calls from the package into NumPy and SciPy; stops inside compiled extension code are not covered"]
CHUNK = 1
CASE_TIMEOUT = 600
LIBS = ("numpy", "scipy")


class Stopper:
    """Raise at the n-th call from the package into NumPy or SciPy."""

    def __init__(self, at):
        self.at, self.n, self.fired = at, 0, False
        self.exc = (KeyboardInterrupt, MemoryError)[at % 2]

    def _tick(self):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            sys.setprofile(None)
            raise self.exc("stopped here")

    def _profile(self, frame, event, arg):
        if event == "call":
            b = frame.f_back
            if b is not None and (b.f_globals.get("__name__") or "").startswith("flowstab") \
                    and (frame.f_globals.get("__name__") or "").startswith(LIBS):
                self._tick()
        elif event == "c_call":
            if (frame.f_globals.get("__name__") or "").startswith("flowstab") \
                    and (getattr(arg, "__module__", None) or "").startswith(LIBS):
                self._tick()

    def run(self, f):
        """'stopped', 'ok' or the name of the exception."""
        sys.setprofile(self._profile)
        try:
            try:
                f()
            finally:
                sys.setprofile(None)
        except (KeyboardInterrupt, MemoryError):
            if not self.fired:
                raise
            return "stopped"
        except Exception as e:
            # the stop may surface as another error
            return "stopped" if self.fired else type(e).__name__
        return "swallowed" if self.fired else "ok"


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


# ------------------------------------------------------------------ networks

OPS = [o for o in c15.OPS if o[0] != "delta"]
FULL = [("lapw", dict(save_adjacencies=True)), ("inter", dict(lamda=0.5)), ("lin", dict(lamda=0.5, t_s=2.5)),
        ("T", dict(lamda=0.5)), ("Tlin", dict(lamda=0.5, t_s=2.5))]
NEXT = [("inter", dict(lamda=0.5)), ("lin", dict(lamda=0.5, t_s=2.5)), ("T", dict(lamda=0.5)), ("Tlin", dict(lamda=0.5, t_s=2.5))]


def flat(view):
    """{(matrix, key...): value} of the stored matrices."""
    out = {}

    def rec(k, v):
        if isinstance(v, dict):
            for x in v:
                rec(k + (x,), v[x])
        elif v is not None:
            out[k] = v
    for m in c15.MATS:
        rec((m,), view[m])
    return out


def equal(a, b):
    try:
        c15._same(a, b, "")
        return True
    except Violation:
        return False


def short(v):
    return f"list of {len(v)}" if isinstance(v, list) else v


def one_of(got, options, what):
    """Every stored entry is one of the given views' entries."""
    for k, v in flat(got).items():
        expect(any(k in o and equal(v, o[k]) for o in options),
               f"{what}: holds {k}: {short(v)}; complete runs give {[short(o[k]) for o in options if k in o] or 'nothing of this name'}")


def net_case(case, ctx):
    make = c15._nets()[case["net"]]
    start = make()
    for o in case["pre"]:
        c15._apply(start, tuple(o))
    before = c15._view(start)
    ref_of = {}

    def result(base, op):
        """View after the operation on a network in the state `base` (prepared uninterrupted)."""
        key = repr((base, op))
        if key not in ref_of:
            n = make()
            for o in base:
                c15._apply(n, o)
            r = c15._apply(n, op)
            ref_of[key] = (r, c15._view(n))
        return ref_of[key]
    pre = [tuple(o) for o in case["pre"]]
    laps = [o for o in pre if o[0].startswith("lap")][-1:]
    for op in OPS:
        what0 = f"network {case['net']} after {pre}: {op}"
        done, after = result(pre, op)
        seen = set()
        for at in itertools.count(1):
            net = copy.deepcopy(start)
            s = Stopper(at)
            r = s.run(lambda: raw(net, op))
            if not s.fired:
                expect((r == "ok") == (done == "ok"), f"{what0}: {r} after {at - 1} calls, {done} when repeated")
                break
            what = f"{what0} stopped at call {at}"
            ctx.step()
            got = c15._view(net)
            if r == "swallowed":
                # went on after the stop: must be as good as never stopped
                _mats_same(got, after, f"{what} (went on)")
            one_of(got, [flat(before), flat(after)], what)
            key = repr([(k, short(v) if isinstance(v, list) else "") for k, v in flat(got).items()]) + repr(
                [got[k] for k in got if k.startswith("_")])
            ctx.state(repr((case["net"], pre, op, at)))
            if key in seen:
                # (the repeated call is tried from every stop, the others from every state left behind)
                if at % 4:
                    continue
            again = copy.deepcopy(net)
            r = c15._apply(again, op)
            expect(r == done, f"{what}: repeating it gives {r}, an uninterrupted run {done}")
            _mats_same(c15._view(again), after, f"{what} and repeated")
            ctx.step()
            ctx.trace()
            if key in seen:
                continue
            seen.add(key)
            ctx.outcome(repr((case["net"], key)))
            for nx in NEXT:
                opts = [flat(v) for v in (before, after, result(pre, nx)[1], result(pre + [op], nx)[1], result([], nx)[1],
                                          result(laps, nx)[1], result([op], nx)[1] if op[0].startswith("lap") else before)]
                n2 = copy.deepcopy(net)
                c15._apply(n2, nx)
                one_of(c15._view(n2), opts, f"{what}, then {nx}")
                ctx.step()


def _mats_same(got, want, what):
    for m in c15.MATS:
        c15._same(_drop_empty(got[m]), _drop_empty(want[m]), f"{what}: {m}")


def _drop_empty(v):
    """Dictionaries without matrices say the same as no dictionary."""
    if isinstance(v, dict):
        d = {k: _drop_empty(x) for k, x in v.items()}
        return {k: x for k, x in d.items() if x is not None} or None
    return v


def raw(net, op):
    """As c15._apply, with exceptions let through."""
    name, kw = op[0], dict(op[1])
    inst = "Inst" in type(net).__name__
    if inst:
        kw.pop("fix_tau_k", None)
    if name == "lap":
        net.compute_laplacian_matrices(**kw)
    elif name == "lapw":
        ts = sorted(set(net.events_table.starting_times) | set(net.events_table.ending_times))
        if inst:
            kw.pop("save_adjacencies", None)
        net.compute_laplacian_matrices(t_start=ts[1], t_stop=ts[-1], **kw)
    else:
        getattr(net, {"inter": "compute_inter_transition_matrices", "lin": "compute_lin_inter_transition_matrices",
                      "T": "compute_transition_matrices", "Tlin": "compute_lin_transition_matrices"}[name])(**kw)


# ------------------------------------------------------------------ analyses

EV = {"A": [(0, 1, -1, 1), (1, 2, 0, 3), (0, 2, 3, 4)],
      "B": [(0, 1, -1, 2), (1, 2, -1, 2), (2, 3, 0, 3), (0, 3, 2, 4)]}
STEPS = ["lap", "inter", "fc", "find"]
VARIANTS = [dict(), dict(ikw=dict(use_sparse_stoch=True)), dict(ikw=dict(linear_approx=True, t_s=3)), dict(t0=0, dir=1), dict(dir=-1)]
CHANGES = [None, ("time_scale", [3.0, 5.0]), ("time_direction", 0), ("t_start", None)]


def step(fs, s, v):
    if s == "lap":
        fs.compute_laplacian_matrices()
    elif s == "inter":
        fs.compute_inter_transition_matrices(**v.get("ikw", {}))
    elif s == "fc":
        fs.set_flow_clustering()
    else:
        fs.find_louvain_clustering(rnd_seed=5)


def analysis_of(net, v):
    fs = FlowStability()
    fs.temporal_network = fam.network(EV[net])
    fs.t_start, fs.t_stop = v.get("t0"), v.get("t1")
    fs.time_scale, fs.time_direction = [1, 4], v.get("dir", 0)
    return fs


def results(fs):
    out = {}
    for name, d, on in (("forward", fs.flow_clustering_forward, fs.time_direction >= 0),
                        ("backward", fs.flow_clustering_backward, fs.time_direction <= 0)):
        for t in fs.time_scale if on else ():
            F = d[t]
            out[name, t] = ([dense(x) for x in F.I_list],
                            [ref.canon_clusters(F.partition[k].cluster_list) for k in range(len(F.I_list))])
    return out


def same_results(got, want, what):
    expect(set(got) == set(want), f"{what}: results for {sorted(got)} instead of {sorted(want)}")
    for k, (Is, cl) in want.items():
        expect(len(got[k][0]) == len(Is), f"{what}: {k}: {len(got[k][0])} covariances instead of {len(Is)}")
        for x, y in zip(got[k][0], Is):
            expect_close(x, y, f"{what}: {k}: covariance")
        expect(got[k][1] == cl, f"{what}: {k}: partitions {got[k][1]} instead of {cl}")


def fs_case(case, ctx):
    v, stop_in = VARIANTS[case["variant"]], case["step"]
    fs = analysis_of(case["net"], v)
    if case["change"] is not None:
        for s in STEPS:
            step(fs, s, v)
        if CHANGES[case["change"]] is not None:
            setattr(fs, *CHANGES[case["change"]])
    what0 = (f"analysis of {case['net']} {v}" + ("" if case["change"] is None else f" finished, then {CHANGES[case['change']]}")
             + f": {stop_in}")
    for s in STEPS[:STEPS.index(stop_in)]:
        step(fs, s, v)
    full = copy.deepcopy(fs)
    for s in STEPS[STEPS.index(stop_in):]:
        step(full, s, v)
    want = results(full)
    for at in itertools.count(1):
        f = copy.deepcopy(fs)
        st = Stopper(at)
        r = st.run(lambda: step(f, stop_in, v))
        if not st.fired:
            expect(r == "ok", f"{what0}: {r}")
            break
        what = f"{what0} stopped at call {at}"
        ctx.step()
        ctx.state(repr((case, at)))
        ctx.outcome(repr((case["net"], case["variant"], f.state.current.value, f.state.next)))
        # the same step again, and the rest
        g = copy.deepcopy(f)
        for s in STEPS[STEPS.index(stop_in):]:
            step(g, s, v)
        same_results(results(g), want, f"{what}, repeated and finished")
        # every later step: fails, does nothing, or the results are those of an uninterrupted run
        for k in range(STEPS.index(stop_in) + 1, len(STEPS)):
            g = copy.deepcopy(f)
            try:
                for s in STEPS[k:]:
                    step(g, s, v)
            except Exception:
                ctx.outcome(repr((case["net"], "failed", k)))
                continue
            if g.state.current.value >= 5:
                same_results(results(g), want, f"{what}, then {STEPS[k:]}")
            ctx.step()
        # the whole analysis again
        g = f
        for s in STEPS:
            step(g, s, v)
        same_results(results(g), want, f"{what}, whole analysis again")
        ctx.trace()


# ------------------------------------------------------------------ searches

def flow_case(case, ctx):
    ev = EV[case["net"]]
    net = fam.network(ev)
    net.compute_laplacian_matrices()
    net.compute_inter_transition_matrices(lamda=0.5, use_sparse_stoch=case["ss"])
    times = ref.event_times(ev)
    grid = [times[0], times[2], times[-1]]

    def make():
        return FlowIntegralClustering(T_inter_list=net.inter_T[0.5], time_list=times, integral_time_grid=grid)
    full = make()
    for k in range(2):
        full.find_louvain_clustering(k=k, rnd_seed=case["seed"])
    want = [ref.canon_clusters(full.partition[k].cluster_list) for k in range(2)]
    for k in range(2):
        for at in itertools.count(1):
            F = make()
            for q in range(k):
                F.find_louvain_clustering(k=q, rnd_seed=case["seed"])
            st = Stopper(at)
            r = st.run(lambda: F.find_louvain_clustering(k=k, rnd_seed=case["seed"]))
            if not st.fired:
                break
            what = f"flow clustering of {ev} (sparse {case['ss']}): search {k} stopped at call {at}"
            ctx.step()
            ctx.state(repr((case, k, at)))
            if k in F.partition:
                expect(ref.canon_clusters(F.partition[k].cluster_list) == want[k], f"{what}: has a partition {F.partition[k].cluster_list}")
            for q in [k] + list(range(k + 1, 2)):
                F.find_louvain_clustering(k=q, rnd_seed=case["seed"])
            for q in range(2):
                got = ref.canon_clusters(F.partition[q].cluster_list)
                expect(got == want[q], f"{what} and repeated: partition {q} is {got} instead of {want[q]}")
            ctx.outcome(repr((case["net"], k, want)))
            ctx.trace()


# ------------------------------------------------------------------

def cases(tier):
    for n in c15._nets():
        if tier == "thorough" or n in ("int", "inst", "labels", "gap"):
            yield dict(kind="net_case", net=n, pre=[])
        if tier == "thorough" or n != "ring":
            yield dict(kind="net_case", net=n, pre=FULL)
        for i, o in enumerate(OPS):
            if tier == "thorough" or n in ("int", "inst"):
                yield dict(kind="net_case", net=n, pre=[o])
        if tier == "thorough":
            for a, b in itertools.product(OPS, repeat=2):
                if n in ("int", "labels", "inst"):
                    yield dict(kind="net_case", net=n, pre=[a, b])
    for n in EV:
        for v in range(len(VARIANTS)):
            for c in [None] + list(range(len(CHANGES))):
                for s in STEPS:
                    if tier == "quick" and n == "B" and c is not None:
                        continue
                    yield dict(kind="fs_case", net=n, variant=v, change=c, step=s)
        for ss, seed in itertools.product((False, True), (0, 1)):
            yield dict(kind="flow_case", net=n, ss=ss, seed=seed)


def check(case, ctx):
    quiet(lambda: globals()[case["kind"]](case, ctx))
