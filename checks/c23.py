"""C23 - the aggregated static network sums contact durations exactly."""
import itertools

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam

PROPERTY = "C23"
RULE = ("every sequence of 1-2 oriented contacts (also overlapping ones) over 3 nodes x all pairs of window bounds "
        "before, at, between and after the event times; every multiset of 3 contacts over 3 nodes; larger networks; "
        "integer and float times; a case is non-trivial when its matrix is new")
ASSUMPTIONS = ["contacts of one pair do not overlap, or each of them counts (multiple contacts are summed)",
               "the window ends after it starts (or both bounds are omitted)"]
CHUNK = 16


def cases(tier):
    one = fam.contacts(3, oriented=True)
    for m in (1, 2):
        for ev in itertools.product(one, repeat=m):
            if ref.overlapping_same_pair(ev):
                continue
            for g in ("int", "float") if m == 1 or tier == "thorough" or ev[0] <= ev[1] else ("int",):
                yield dict(ev=ev, grid=g, w="full")
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            yield dict(ev=ev, grid=g, w="full")
    for ev in fam.big_events():
        yield dict(ev=ev, grid="raw", w="big")
    for ev in fam.event_sets(3, 3):
        yield dict(ev=ev, grid="int", w="full" if tier == "thorough" else "grid")
    if tier == "thorough":
        for ev in fam.event_sets(4, 3):
            yield dict(ev=ev, grid="float", w="grid")


def check(case, ctx):
    ev = fam.on_grid(case["ev"], case["grid"])
    g = fam.GRIDS.get(case["grid"]) or ref.event_times(ev)
    bs = list(g)
    if case["w"] == "full":
        bs = sorted(bs + [g[0] - 1, (g[0] + g[1]) / 2, (g[1] + g[2]) / 2, (g[2] + g[3]) / 2, g[3] + 1])
    net = fam.network(ev)
    labels = ref.node_labels(ev)
    pos = {l: i for i, l in enumerate(labels)}
    n = len(labels)
    before = net.events_table.copy(deep=True)
    lo, hi = min(e[2] for e in ev), max(e[3] for e in ev)
    wins = [(None, None)] + [(a, None) for a in bs if a < hi] + [(None, b) for b in bs if b > lo] + \
        [(a, b) for a in bs for b in bs if a < b]
    for a, b in wins:
        W = np.zeros((n, n))
        for s, t, x, y in ev:
            d = min(y, hi if b is None else b) - max(x, lo if a is None else a)
            if d > 0:
                W[pos[s], pos[t]] += d
                W[pos[t], pos[s]] += d
        A = net.compute_static_adjacency_matrix(start_time=a, end_time=b)
        what = f"events {ev} window ({a},{b})"
        expect(A.shape == (n, n), f"{what}: shape {A.shape}")
        expect_close(A, W, f"{what}: static adjacency", tol=1e-12)
        M = dense(A)
        expect((M == M.T).all(), f"{what}: not symmetric")
        ctx.step()
        ctx.trace()
        ctx.state(repr((case["ev"], case["grid"], a, b)))
        ctx.outcome(canon_array(W))
    expect(net.events_table.equals(before), f"events {ev}: the events were modified")
