"""Covariances and transition matrices shared by the clustering checks (enumerated)."""
import itertools

import numpy as np


def row_patterns(n):
    """All supports of row-stochastic matrices (every row non-empty)."""
    rows = [r for k in range(1, n + 1) for r in itertools.combinations(range(n), k)]
    return itertools.product(rows, repeat=n)


def t_from_rows(n, rows, flavour=1):
    T = np.zeros((n, n))
    for i, r in enumerate(rows):
        for j in r:
            T[i, j] = 1.0 if flavour == 0 else np.sqrt(2 + 3 * i + 7 * j)
        if len(r):
            T[i] /= T[i].sum()
    return T


def p_vec(n, kind):
    if kind is None:
        return None
    a = np.sqrt(np.arange(2.0, n + 2))
    if kind == "zero" and n > 1:
        a[n // 2] = 0
    return a / a.sum()


def signed_s(n, bits, sym=False, scales=False):
    """Covariance with the given off-diagonal signs and magnitudes without ties (over six decades with `scales`)."""
    S = np.zeros((n, n))
    cells = [(i, j) for i in range(n) for j in range(n) if i != j and (not sym or i < j)]
    for b, (i, j) in enumerate(cells):
        v = np.sqrt(1 + (5 * i + 3 * j) % 7 + i / 10 + j / 31) * (1 if bits >> b & 1 else -1) / 10
        if scales:
            v *= 10.0 ** -((b * 5 + 3) % 7)
        S[i, j] = v
        if sym:
            S[j, i] = v
    for i in range(n):
        S[i, i] = -0.1 - 0.07 * i if scales else (0.3 - 0.2 * i) * np.sqrt(3)
    return S


def n_cells(n, sym):
    return n * (n - 1) // 2 if sym else n * (n - 1)


# undirected graphs on 4-6 nodes used for larger searches
GRAPHS = {
    "path4": [(0, 1), (1, 2), (2, 3)],
    "star4": [(0, 1), (0, 2), (0, 3)],
    "two_pairs": [(0, 2), (1, 3)],
    "cycle4": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "lollipop": [(0, 1), (1, 2), (0, 2), (2, 3)],
    "k4": [(a, b) for a in range(4) for b in range(a)],
    "barbell6": [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (2, 3)],
    "ring6": [(i, (i + 1) % 6) for i in range(6)],
    "ring8": [(i, (i + 1) % 8) for i in range(8)],
    "cliques9": [(a, b) for q in range(3) for a in range(3 * q, 3 * q + 3) for b in range(3 * q, a)] + [(2, 3), (5, 6), (8, 0)],
}


def graph_t(name, t=1.0):
    E = GRAPHS[name]
    n = 1 + max(max(e) for e in E)
    A = np.zeros((n, n))
    for a, b in E:
        A[a, b] = A[b, a] = 1
    d = A.sum(1)
    Ls = np.eye(n) - A / np.sqrt(np.outer(d, d))
    w, V = np.linalg.eigh(Ls)
    T = (V * np.exp(-t * w)) @ V.T * np.sqrt(d[None, :] / d[:, None])
    T[T < 1e-12] = 0
    return T / T.sum(1, keepdims=True), d / d.sum()
