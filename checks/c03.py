"""C03 - Laplacians describe exactly the contacts active in each inter-event interval."""
import itertools

from fsmc import ref
from fsmc.core import Violation, canon_array, dense, expect, expect_close
from checks import families as fam
from flowstab.temporal_network import ContTempNetwork

PROPERTY = "C03"
RULE = ("every sequence of 1-2 oriented contacts over 3 nodes x 6 intervals of a 4-point time grid "
        "(10x10 window bounds each), every multiset of 3 contacts over 3 nodes (25 windows, two row "
        "orders) and over 4 nodes (3 windows), multisets of 1-3 contacts some of which have no duration, "
        "on integer and irregular float time grids; a case is "
        "non-trivial when its list of Laplacians is new")
ASSUMPTIONS = ["contacts join two distinct nodes and do not overlap another "
               "contact of the same pair (the documented precondition unless merging is requested)"]
CHUNK = 8
GRIDS = {"int": [0, 1, 2, 3], "float": [-1.5, 0.1, 0.7, 1e3]}
IV = [(a, b) for a in range(4) for b in range(a + 1, 4)]


def _bounds(g, full):
    b = [None] + list(g)
    if full:
        b += [g[0] - 1, (g[0] + g[1]) / 2, (g[1] + g[2]) / 2, (g[2] + g[3]) / 2, g[3] + 1]
    return b


def cases(tier):
    pairs3 = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)]
    one = [(s, t, a, b) for (s, t) in pairs3 for (a, b) in IV]
    for m in (1, 2):
        for ev in itertools.product(one, repeat=m):
            if not ref.overlapping_same_pair(ev):
                yield dict(ev=ev, grid="int", w="full")
    for ev in itertools.combinations_with_replacement(one[:18], 2):
        if not ref.overlapping_same_pair(ev):
            yield dict(ev=ev, grid="float", w="full")
    for ev in itertools.combinations_with_replacement(one[:18], 3):
        if not ref.overlapping_same_pair(ev):
            yield dict(ev=ev, grid="int", w="grid")
            yield dict(ev=ev[::-1], grid="float", w="grid")
    p4 = list(itertools.combinations(range(4), 2))
    one4 = [(t, s, a, b) for (s, t) in p4 for (a, b) in IV]
    for ev in itertools.combinations(one4, 3):
        if not ref.overlapping_same_pair(ev):
            yield dict(ev=ev, grid="int", w="few")
    for ev in fam.big_events():
        yield dict(ev=ev, grid="raw", w="grid")
    # contacts without a duration: only their times count
    one0 = [(s, t, a, b) for (s, t) in pairs3[:4] for a in range(4) for b in range(a, 4)]
    for m in (1, 2, 3):
        for ev in itertools.combinations_with_replacement(one0 if m < 3 else one0[:20], m):
            if any(e[2] == e[3] for e in ev) and len(ref.event_times(ev)) > 1 and not ref.overlapping_same_pair(ev):
                yield dict(ev=ev, grid="int", w="grid" if m < 3 else "few")
                if m == 2:
                    yield dict(ev=ev[::-1], grid="float", w="grid")
    if tier == "thorough":
        for ev in itertools.combinations(one4, 4):
            if not ref.overlapping_same_pair(ev):
                yield dict(ev=ev, grid="int", w="few")
        for ev in itertools.product(one[:18], repeat=3):
            if not ref.overlapping_same_pair(ev):
                yield dict(ev=ev, grid="int", w="full")


def check(case, ctx):
    ev = fam.on_grid(case["ev"], GRIDS.get(case["grid"], case["grid"]))
    g = GRIDS.get(case["grid"]) or ref.event_times(ev)
    if case["w"] == "few":
        wins = [(None, None), (g[1], None), (g[1], g[2])]
    else:
        bs = _bounds(g, case["w"] == "full")
        wins = list(itertools.product(bs, bs))
    net = ContTempNetwork(source_nodes=[e[0] for e in ev], target_nodes=[e[1] for e in ev],
                          starting_times=[e[2] for e in ev], ending_times=[e[3] for e in ev])
    times = ref.event_times(ev)
    for i, (t0, t1) in enumerate(wins):
        adj = i % 2 == 0
        net.compute_laplacian_matrices(t_start=t0, t_stop=t1, save_adjacencies=adj)
        want_A = ref.adjacencies(ev, t0, t1)
        what = f"events {ev} window ({t0},{t1})"
        expect(list(net.times) == times, f"{what}: event times {list(net.times)} != {times}")
        expect(len(net.laplacians) == len(want_A),
               f"{what}: {len(net.laplacians)} Laplacians instead of {len(want_A)}")
        for k, A in enumerate(want_A):
            expect_close(net.laplacians[k], ref.rw_laplacian(A), f"{what}: Laplacian {k}")
            if adj:
                expect_close(net.adjacencies[k], A, f"{what}: adjacency {k}")
        ctx.step(len(want_A) + 1)
        ctx.trace()
        ctx.state(b"".join(canon_array(A) for A in want_A) + repr((case["grid"], len(want_A))).encode())
        ctx.outcome(b"".join(canon_array(dense(L)) for L in net.laplacians))
