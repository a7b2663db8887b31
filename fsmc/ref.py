"""Boring reference models (plain lists, sets and dense numpy; nothing from /repo)."""
from __future__ import annotations

import itertools

import numpy as np


# ------------------------------------------------------------- temporal model

def node_labels(events):
    return sorted({e[0] for e in events} | {e[1] for e in events})


def event_times(events):
    return sorted({e[2] for e in events} | {e[3] for e in events})


def overlapping_same_pair(events):
    """True if two contacts of one (undirected) pair overlap for a positive time."""
    for a, b in itertools.combinations(events, 2):
        if {a[0], a[1]} == {b[0], b[1]} and max(a[2], b[2]) < min(a[3], b[3]):
            return True
    return False


def active_adjacency(events, labels, t0, t1):
    """0/1 adjacency of the contacts active throughout (t0, t1)."""
    pos = {l: i for i, l in enumerate(labels)}
    A = np.zeros((len(labels), len(labels)))
    for s, t, b, e in events:
        if b <= t0 and e >= t1:
            A[pos[s], pos[t]] = A[pos[t], pos[s]] = 1.0
    return A


def rw_laplacian(A):
    """Random-walk Laplacian; isolated nodes get a self loop (zero row)."""
    n = A.shape[0]
    L = np.zeros((n, n))
    for i in range(n):
        d = A[i].sum()
        if d > 0:
            L[i, i] = 1.0
            for j in range(n):
                if j != i:
                    L[i, j] = -A[i, j] / d
    return L


def snap_index(times, t, default):
    """Index of the last event time <= t (first one if t is before all)."""
    if t is None:
        return default
    k = 0
    for i, x in enumerate(times):
        if x <= t:
            k = i
    return k


def window(times, t_start, t_stop):
    k0 = snap_index(times, t_start, 0)
    k1 = snap_index(times, t_stop, len(times) - 1)
    return k0, k1


def adjacencies(events, t_start=None, t_stop=None, labels=None):
    labels = node_labels(events) if labels is None else labels
    times = event_times(events)
    k0, k1 = window(times, t_start, t_stop)
    return [active_adjacency(events, labels, times[k], times[k + 1]) for k in range(k0, k1)]


def laplacians(events, t_start=None, t_stop=None, labels=None):
    return [rw_laplacian(A) for A in adjacencies(events, t_start, t_stop, labels)]


def inst_events(contacts):
    """Instantaneous contacts (s, t, time) as events lasting until the next distinct time."""
    ts = sorted({c[2] for c in contacts})
    nxt = {t: (ts[i + 1] if i + 1 < len(ts) else t + 1) for i, t in enumerate(ts)}
    return [(s, t, b, nxt[b]) for s, t, b in contacts]


# ------------------------------------------------------------- random walks

def expm_rw(L, x):
    """exp(-x L) for a random-walk Laplacian of an undirected graph.

    Uses the symmetric eigendecomposition component by component, i.e. nothing
    of the Pade / scaling-and-squaring code used by the library."""
    n = L.shape[0]
    A = (np.abs(L - np.diag(np.diag(L))) > 0).astype(float)
    T = np.eye(n)
    deg = A.sum(1)
    idx = np.flatnonzero(deg > 0)
    if idx.size:
        d = deg[idx]
        Ls = np.eye(idx.size) - A[np.ix_(idx, idx)] / np.sqrt(np.outer(d, d))
        w, V = np.linalg.eigh(Ls)
        E = (V * np.exp(-x * w)) @ V.T
        T[np.ix_(idx, idx)] = E * np.sqrt(d[None, :] / d[:, None])
    return T


def components(A):
    n = A.shape[0]
    lab = [-1] * n
    c = 0
    for i in range(n):
        if lab[i] < 0:
            stack = [i]
            lab[i] = c
            while stack:
                u = stack.pop()
                for v in range(n):
                    if lab[v] < 0 and (A[u, v] or A[v, u]):
                        lab[v] = c
                        stack.append(v)
            c += 1
    return lab


def stationary(A):
    """Stationary transition matrix of the random walk on undirected 0/1 A (isolated: stay)."""
    n = A.shape[0]
    lab = components(A)
    Pi = np.zeros((n, n))
    deg = A.sum(1)
    for i in range(n):
        mem = [j for j in range(n) if lab[j] == lab[i]]
        tot = sum(deg[j] for j in mem)
        for j in mem:
            Pi[i, j] = deg[j] / tot if tot > 0 else 1.0
    return Pi


def lin_approx(A, t, t_s=10):
    n = A.shape[0]
    T = np.eye(n) - rw_laplacian(A)
    Pi = stationary(A)
    if t <= 1:
        return (1 - t) * np.eye(n) + t * T
    if t < t_s:
        return (T * (t_s - t) + Pi * (t - 1)) / (t_s - 1)
    return Pi


def products(mats, reverse=False):
    seq = list(mats)[::-1] if reverse else list(mats)
    out = [seq[0]]
    for M in seq[1:]:
        out.append(out[-1] @ M)
    return out


# ------------------------------------------------------------- partitions

def set_partitions(n):
    """All partitions of range(n) as restricted growth strings."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for c in range(m + 1):
            yield from rec(prefix + [c], max(m, c + 1))
    yield from rec([0], 1) if n else iter([()])


def rgs_to_sets(r):
    k = max(r) + 1 if r else 0
    return [set(i for i, c in enumerate(r) if c == q) for q in range(k)]


def canon_clusters(cl):
    return sorted(tuple(sorted(int(x) for x in c)) for c in cl if len(c))


def is_partition(cl, n):
    allx = sorted(int(x) for c in cl for x in c)
    return allx == list(range(n)) and all(len(c) > 0 for c in cl)


def stability(S, clusters):
    return float(sum(S[np.ix_(sorted(c), sorted(c))].sum() for c in clusters if len(c)))


def autocov(p1, T, p2=None):
    p2 = p1 @ T if p2 is None else p2
    return p1[:, None] * T - np.outer(p1, p2)


def flow_integrals(T_inter, times, p1=None, reverse=False, grid_idx=None):
    """Time-averaged forward/backward covariances at the given grid indices.

    grid_idx are positions in the (direction-ordered) time list; the k-th result is
    (1/T) int P1 T(t) P(t)^-1 T(t)^T P1 dt - p1 p1^T, piecewise constant in t."""
    n = T_inter[0].shape[0]
    p1 = np.full(n, 1.0 / n) if p1 is None else np.asarray(p1, float)
    tl = list(times)[::-1] if reverse else list(times)
    Ts = products(T_inter, reverse)
    grid_idx = [len(tl) - 1] if grid_idx is None else grid_idx
    acc = np.zeros((n, n))
    tot = 0.0
    out = []
    for k, T in enumerate(Ts):
        if k + 1 >= len(tl):
            break
        dt = abs(tl[k + 1] - tl[k])
        pt = p1 @ T
        for c in range(n):
            if pt[c] != 0:
                acc = acc + np.outer(T[:, c], T[:, c]) * (dt / pt[c])
        tot += dt
        if k + 1 in grid_idx:
            out.append(acc * np.outer(p1, p1) / tot - np.outer(p1, p1))
    return out


# ------------------------------------------------------------- similarity

def _H(ps):
    return -sum(p * np.log2(p) for p in ps if p > 0)


def nvi(c1, c2):
    N = sum(len(c) for c in c1)
    if N == 1:
        return 0.0
    H1 = _H([len(c) / N for c in c1])
    H2 = _H([len(c) / N for c in c2])
    H12 = _H([len(a & b) / N for a in c1 for b in c2])
    return (2 * H12 - H1 - H2) / np.log2(N)


def nmi(c1, c2):
    N = sum(len(c) for c in c1)
    H1 = _H([len(c) / N for c in c1])
    H2 = _H([len(c) / N for c in c2])
    H12 = _H([len(a & b) / N for a in c1 for b in c2])
    m = max(H1, H2)
    return None if m == 0 else (H1 + H2 - H12) / m
