"""Families of small inputs shared by the checks (enumerated, never sampled)."""
import itertools

from fsmc import ref
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

GRIDS = {"int": [0, 1, 2, 4], "float": [-1.5, 0.1, 0.7, 3.0]}
IV4 = [(a, b) for a in range(4) for b in range(a + 1, 4)]


def contacts(n, oriented=False):
    pairs = list(itertools.permutations(range(n), 2)) if oriented else list(itertools.combinations(range(n), 2))
    return [(s, t, a, b) for s, t in pairs for a, b in IV4]


def event_sets(n, m, oriented=False, combos=True):
    """All multisets (combos) or sequences of m contacts over n nodes without overlapping same-pair contacts."""
    it = itertools.combinations_with_replacement if combos else (lambda x, k: itertools.product(x, repeat=k))
    for ev in it(contacts(n, oriented), m):
        if not ref.overlapping_same_pair(ev):
            yield [list(e) for e in ev]


def tiny_events():
    """A small fixed list of structurally different networks (grid indices)."""
    return [
        [(0, 1, 0, 1)],                                                # one contact
        [(0, 1, 0, 2), (1, 2, 1, 3)],                                  # chain, partial overlap
        [(0, 1, 0, 1), (0, 1, 2, 3)],                                  # gap (empty interval)
        [(2, 1, 0, 3), (0, 1, 1, 2)],                                  # nested, reversed orientation
        [(0, 1, 0, 3), (2, 3, 0, 3)],                                  # two components
        [(0, 1, 0, 2), (1, 2, 0, 2), (0, 2, 1, 3)],                    # triangle
        [(0, 3, 0, 1), (1, 3, 1, 2), (2, 3, 2, 3)],                    # star in time
        [(0, 1, 0, 1), (1, 2, 1, 2), (2, 3, 2, 3), (0, 3, 1, 3)],      # cycle in time
        [(0, 1, 0, 3), (1, 2, 0, 3), (2, 3, 0, 3), (0, 1, 0, 0)][:3],  # static path
    ]


def big_events():
    """Larger structured networks (real times): size-dependent code paths and many coinciding events."""
    ring = [(i, (i + 1) % 7, i, i + 3) for i in range(7)]
    cliq = ([(i, j, 0.5 * i, 4 + 0.25 * j) for i in range(5) for j in range(i + 1, 5)]
            + [(j, i, 1.0, 5.5) for i in range(5, 10) for j in range(i + 1, 10)]
            + [(0, 5, 2.0, 2.5), (4, 9, 4.25, 6.0), (0, 5, 3.0, 5.0)])
    pairs = [(2 * i, 2 * i + 1, i % 3, 3 + i % 2) for i in range(6)] + [(11 - i, i + 1, 4, 6) for i in range(5) if i != 4]
    star = [(8, i, 10 * i, 10 * i + 25) for i in range(8)] + [(i, i + 1, 10 * i + 5, 10 * i + 10) for i in range(7)]
    return [ring, cliq, pairs, star]


def on_grid(ev, grid):
    if grid == "raw":
        return [tuple(e) for e in ev]
    g = GRIDS[grid] if isinstance(grid, str) else grid
    return [(s, t, g[a], g[b]) for s, t, a, b in ev]


def network(events, cls=ContTempNetwork, **kw):
    return cls(source_nodes=[e[0] for e in events], target_nodes=[e[1] for e in events],
               starting_times=[e[2] for e in events], ending_times=[e[3] for e in events], **kw)


def inst_network(contacts, **kw):
    return ContTempInstNetwork(source_nodes=[c[0] for c in contacts], target_nodes=[c[1] for c in contacts],
                               starting_times=[c[2] for c in contacts], **kw)
