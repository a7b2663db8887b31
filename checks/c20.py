"""C20: synthetic networks obey the interaction rules for every outcome of the random draws."""
import itertools
from contextlib import contextmanager

import numpy as np
import scipy.stats

from fsmc.core import expect
from fsmc.pool import Scheduler
from flowstab import synth_temp_network as stn
from flowstab.synth_temp_network import Individual, SynthTempNetwork

PROPERTY = "C20"
RULE = ("for every configuration (1 to 4 individuals in any order, every partner rule, 1 to 3 interactions per activation, start "
        "times, constant or time-dependent rates) every outcome of the first draws (short or long waiting times and durations, every partner and "
        "group choice) up to a decision depth, the remaining draws following a fixed fair rotation; every produced contact, "
        "activation, duration and recorded state is compared with what the draws imply")
ASSUMPTIONS = ["random numbers come from scipy.stats.expon.rvs and numpy.random.choice (other sources are not controlled, and then "
               "only the rules on the contacts are checked)",
               "event times without ties for the recorded states (ties have probability zero)"]
CHUNK = 1
E_VALUES = [0.35, 1.9, 0.9]


class Draws:
    """Outcomes of the random draws decided by a scheduler for the first `depth` decisions."""

    def __init__(self, prefix, depth, ties):
        self.s = Scheduler(prefix)
        self.depth = depth
        self.ties = ties
        self.log = []                     # (loc, scale, value)
        self.last = None
        self.rep = 0
        self.count = 0

    def pick(self, n):
        if n <= 1:
            return 0
        if len(self.s.trace) >= self.depth:
            return 0
        return self.s.choose(n)

    def rvs(self, *args, loc=0, scale=1, size=None, random_state=None, **kw):
        if size is not None:
            return np.array([self.rvs(loc=loc, scale=scale) for _ in range(int(np.prod(size)))]).reshape(size)
        if len(args) > 0:
            loc = args[0]
        if len(args) > 1:
            scale = args[1]
        self.count += 1
        v = E_VALUES[self.pick(2)]
        if not self.ties:
            v += 1e-4 * np.sqrt(2 + 3 * self.count % 97 + self.count)
        self.log.append((loc, scale, v))
        return v

    def choice(self, a, size=None, replace=True, p=None):
        opts = list(range(a)) if np.ndim(a) == 0 else list(a)
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.shape != (len(opts),) or not np.isfinite(p).all() or (p < 0).any() or abs(p.sum() - 1) > 1e-7:
                raise ValueError(f"invalid probabilities {p}")
            opts = [o for o, q in zip(opts, p) if q > 0]
        if size is not None:
            return np.array([self.choice(a, p=p) for _ in range(int(np.prod(size)))]).reshape(size)
        key = tuple(opts)
        self.rep = self.rep + 1 if key == self.last else 0
        self.last = key
        if self.rep > 200:
            raise RuntimeError("partner choice does not end")
        return opts[(self.pick(len(opts)) + self.rep) % len(opts)]


@contextmanager
def controlled(d):
    old = scipy.stats.expon.__dict__.get("rvs")
    oldc = np.random.choice
    scipy.stats.expon.rvs = d.rvs
    np.random.choice = d.choice
    try:
        yield
    finally:
        if old is None:
            del scipy.stats.expon.rvs
        else:
            scipy.stats.expon.rvs = old
        np.random.choice = oldc


GROUPS = {1: [[0]], 2: [[0, 0], [0, 1]], 3: [[0, 0, 0], [0, 0, 1], [1, 0, 0]], 4: [[0, 0, 1, 1], [0, 1, 0, 1]]}
PROBS = {1: [[[1.0]]], 2: [[[0.5, 0.5], [0.5, 0.5]], [[0.0, 2.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, 0.0]]]}


def cases(tier):
    depth = 6 if tier == "quick" else 9
    for n in (1, 2, 3, 4):
        for g, groups in enumerate(GROUPS[n]):
            ng = len(set(groups))
            for method in ("random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod"):
                for pi in range(len(PROBS[ng])) if method.startswith("block") else (None,):
                    for m in (1, 2) if n < 4 else (1, 3):
                        for order in ("id", "rev", "rot") if n == 3 else ("id", "rev"):
                            for k, (t0, t1) in enumerate([(0, 4.0), (5, 8.5), (-1.5, 2.0)]):
                                if tier == "quick" and (m > 1 or order == "rev") and k:
                                    continue
                                yield dict(n=n, groups=groups, method=method, probs=pi, m=m, order=order, t_start=t0, t_end=t1,
                                           mod=(k + m) % 3 != 0, dt=[0.7, 1.3, 10.0][k], depth=depth, ties=False)
                    yield dict(n=n, groups=groups, method=method, probs=pi, m=1, order="id", t_start=0, t_end=4.0, mod=False, dt=1.0,
                               depth=depth, ties=True)
    yield dict(kind="individual")


def check(case, ctx):
    if case.get("kind") == "individual":
        return _individual(ctx)
    stack = [()]
    while stack:
        prefix = stack.pop()
        d = Draws(prefix, case["depth"], case["ties"])
        _run(case, d, ctx)
        trace = d.s.trace
        choices = tuple(c for c, _ in trace)
        ctx.state(repr((case, choices)))
        ctx.trace()
        ctx.step(len(d.log))
        for i in range(len(trace) - 1, len(prefix) - 1, -1):
            for c in range(trace[i][1] - 1, 0, -1):
                stack.append(choices[:i] + (c,))


def probs_at(case, t):
    P = np.array(PROBS[len(set(case["groups"]))][case["probs"]])
    if case["method"] == "block_probs_mod":
        if t >= case["t_start"] + 1.5:
            P = P[::-1].copy()
    s = P.sum(1, keepdims=True)
    return P / np.where(s == 0, 1, s)


def _run(case, d, ctx):
    n, groups, m, t0, t1 = case["n"], case["groups"], case["m"], case["t_start"], case["t_end"]
    act_loc = {i: 10.0 + i for i in range(n)}
    dur_loc = {i: 20.0 + i for i in range(n)}
    what = f"{case} decisions {d.s.prefix}"
    with controlled(d):
        inds = []
        for i in range(n):
            kw = {}
            if case["mod"]:
                kw = dict(inter_distro_mod_func=lambda t, i=i: (dur_loc[i], 100.0 + t), activ_distro_mod_func=lambda t, i=i: (act_loc[i], 100.0 + t))
            inds.append(Individual(i, inter_distro_loc=dur_loc[i], inter_distro_scale=2.0, activ_distro_loc=act_loc[i], activ_distro_scale=3.0,
                                   group=groups[i], **kw))
        order = {"id": list(range(n)), "rev": list(range(n))[::-1], "rot": list(range(1, n)) + [0]}[case["order"]]
        kw = {}
        if case["method"] == "block_probs":
            kw["inter_group_probs"] = np.array(PROBS[len(set(groups))][case["probs"]])
        if case["method"] == "block_probs_mod":
            kw["block_prob_mod_func"] = lambda t: probs_at(case, t)
        sim = SynthTempNetwork([inds[i] for i in order], t_start=t0, t_end=t1, num_interactions_per_activation=m,
                               next_event_method=case["method"], **kw)
        sim.run(save_all_states=True, save_dt_states=True, dt=case["dt"])
    contacts = [(int(a), int(b), float(s), float(e)) for a, b, s, e in zip(sim.indiv_sources, sim.indiv_targets, sim.start_times, sim.end_times)]
    expect(len(sim.indiv_sources) == len(sim.indiv_targets) == len(sim.start_times) == len(sim.end_times), f"{what}: lists of different length")
    ctx.outcome(repr([(a, b, round(s, 6), round(e, 6)) for a, b, s, e in contacts]))
    # ---- rules on the contacts
    for a, b, s, e in contacts:
        expect(0 <= a < n and 0 <= b < n and a != b, f"{what}: contact between {a} and {b}")
        expect(t0 <= s <= e, f"{what}: contact {(a, b, s, e)} outside the simulation (start {t0})")
        ga, gb = groups[a], groups[b]
        if case["method"] == "random_uniform_within_group":
            expect(ga == gb, f"{what}: contact {(a, b)} between groups {ga} and {gb}")
        if case["method"].startswith("block"):
            expect(probs_at(case, s)[ga, gb] > 0, f"{what}: contact {(a, b, s, e)} between groups {ga}, {gb} that do not interact")
    for x, y in itertools.combinations(contacts, 2):
        expect(x[:2] != y[:2] or min(x[3], y[3]) <= max(x[2], y[2]), f"{what}: contacts {x} and {y} overlap")
    ends = [c[3] for c in contacts]
    expect(ends == sorted(ends), f"{what}: contacts not in order of their end {ends}")
    if not d.log:
        ctx.count("uncontrolled")
        return
    # ---- what the draws imply
    act, dur = {i: [] for i in range(n)}, {i: [] for i in range(n)}
    for loc, scale, v in d.log:
        if 10 <= loc < 20:
            act[int(round(loc - 10))].append((scale, v))
        else:
            expect(20 <= loc < 20 + n, f"{what}: draw with location {loc} of no individual")
            dur[int(round(loc - 20))].append((scale, v))
    times = []
    acts = {i: [] for i in range(n)}
    for i in range(n):
        t = t0
        for k, (scale, v) in enumerate(act[i]):
            expect(abs(scale - (100.0 + t if case["mod"] else 3.0)) < 1e-9, f"{what}: activation draw {k} of {i} at time {t} with scale {scale}")
            t = t + v
            acts[i].append(t)
            times.append(t)
    # contacts started at each activation, in order, with the drawn durations
    started = {i: [] for i in range(n)}
    for i in range(n):
        it = list(dur[i])
        for a in acts[i][:-1]:               # the last drawn activation has not been processed
            active = [c for c in started[i] if c[1] > a or (case["ties"] and c[1] == a)]
            k = 0
            if case["mod"]:
                while it and abs(it[0][0] - (100.0 + a)) < 1e-9:
                    started[i].append((a, a + it.pop(0)[1]))
                    k += 1
            else:
                free = {"random_uniform": n - 1, "random_uniform_within_group": groups.count(groups[i]) - 1}.get(case["method"])
                if free is None or case["ties"]:
                    # as many as recorded later on; decided below
                    continue
                for _ in range(min(m, free - len(active))):
                    expect(len(it) > 0, f"{what}: individual {i} did not interact at {a} although partners were free")
                    started[i].append((a, a + it.pop(0)[1]))
                    k += 1
            expect(k <= m, f"{what}: individual {i} started {k} contacts at {a}")
            if case["mod"]:
                if case["method"] == "random_uniform":
                    free = n - 1
                elif case["method"] == "random_uniform_within_group":
                    free = groups.count(groups[i]) - 1
                else:
                    P = probs_at(case, a)[groups[i]]
                    sizes = [sum(1 for j in range(n) if groups[j] == g and j != i) for g in range(len(P)) if P[g] > 0]
                    # every reachable group has enough free partners: all attempts succeed; none reachable: none does
                    free = None
                    if not sizes or max(sizes) == 0:
                        expect(k == 0, f"{what}: individual {i} interacted at {a} without allowed partners")
                    elif min(sizes) - len(active) >= m:
                        expect(k == m, f"{what}: individual {i} started {k} of {m} contacts at {a}")
                if free is not None:
                    expect(k == min(m, free - len(active)), f"{what}: individual {i} started {k} contacts at {a} with {free - len(active)} free partners")
        if case["mod"] or (case["method"].startswith("random") and not case["ties"]):
            expect(not it, f"{what}: durations {it} drawn for {i} at no activation")
    known = case["mod"] or (case["method"].startswith("random") and not case["ties"])
    final = max([c[3] for c in contacts] + [a for i in range(n) for a in acts[i][:-1]] + [t0])
    for i in range(n):
        expect(acts[i] and acts[i][-1] >= min(final, t1), f"{what}: individual {i} stopped activating at {acts[i]}")
        expect(not acts[i][:-1] or acts[i][-2] <= final, f"{what}: activation")
    if known:
        want = sorted((i, round(s, 7), round(e, 7)) for i in range(n) for s, e in started[i] if e <= final)
        got = sorted((a, round(s, 7), round(e, 7)) for a, b, s, e in contacts)
        expect(want == got, f"{what}: contacts {got}, the draws imply {want} until {final}")
        alltimes = sorted([a for i in range(n) for a in acts[i]] + [e for i in range(n) for s, e in started[i]])
        after = [t for t in alltimes if t >= t1]
        expect(not after or abs(final - after[0]) < 1e-9 or final < t1 and not [t for t in alltimes if final < t < t1],
               f"{what}: simulation stopped at {final}, events {alltimes}, end {t1}")
    if case["ties"]:
        return
    # ---- recorded states
    evt = sorted({a for i in range(n) for a in acts[i][:-1]} | {c[3] for c in contacts})
    keys = sorted(float(k) for k in sim.all_states)
    expect(np.allclose(keys, [t0] + evt) if len(keys) == 1 + len(evt) else False, f"{what}: states recorded at {keys}, events at {[t0] + evt}")
    nxt, binned = t0 + case["dt"], [t0]
    for t in evt:
        if t >= nxt:
            binned.append(t)
            nxt += case["dt"]
    bk = sorted(float(k) for k in sim.saved_states)
    expect(len(bk) == len(binned) and np.allclose(bk, binned), f"{what}: states saved at {bk} instead of {binned}")
    prev = None
    for name, states in (("all_states", sim.all_states), ("saved_states", sim.saved_states)):
        for t in sorted(states):
            A = np.asarray(states[t].toarray())
            R = np.zeros((n, n))
            for a, b, s, e in contacts:
                if s <= t < e:
                    R[a, b] = 1
            extra = A - R
            expect(((A == 0) | (A == 1)).all() and (extra >= 0).all(), f"{what}: {name} at {t} is {A.tolist()}, contacts {contacts}")
            if known:
                pend = [sum(1 for s, e in started[i] if s <= t and e > final) for i in range(n)]
                expect(extra.sum(1).tolist() == pend, f"{what}: {name} at {t} is {A.tolist()}; contacts {contacts}, unfinished {pend}")
            if name == "all_states":
                if prev is not None:
                    expect((extra >= prev).all(), f"{what}: unfinished contact vanished at {t}")
                prev = extra
            else:
                expect((A == np.asarray(sim.all_states[t].toarray())).all(), f"{what}: saved state at {t} differs from all_states")


def _individual(ctx):
    d = Draws((), 0, True)
    with controlled(d):
        ind = Individual(3, inter_distro_loc=1.5, inter_distro_scale=2.5, activ_distro_loc=3.5, activ_distro_scale=4.5, group=2)
        mod = Individual(4, inter_distro_mod_func=lambda t: (t, 2 * t), activ_distro_mod_func=lambda t: (3 * t, 4 * t))
        for f, want in ((ind.draw_inter_duration, (1.5, 2.5)), (ind.draw_activ_time, (3.5, 4.5)),
                        (lambda: ind.draw_inter_duration(7), (1.5, 2.5)), (lambda: ind.draw_activ_time(7), (3.5, 4.5)),
                        (lambda: mod.draw_inter_duration(7), (7, 14)), (lambda: mod.draw_activ_time(7), (21, 28)),
                        (mod.draw_inter_duration, (0, 1)), (mod.draw_activ_time, (0, 5))):
            d.log.clear()
            f()
            if d.log:
                expect(d.log[-1][:2] == want, f"draw with {d.log[-1][:2]} instead of {want}")
            ctx.step()
    expect(ind.ID == 3 and ind.group == 2, "individual attributes")
    ctx.trace()
