"""C21 - compiled kernels, their Python substitutes and the dense definitions agree, without stray accesses."""
import fcntl
import importlib.util
import itertools
import os
import re
import shutil
import subprocess
import sys
import sysconfig
from array import array

import numpy as np
from scipy.sparse import csr_matrix

from fsmc import ref
from fsmc.core import Violation, canon_array, expect, expect_close, expect_valid_csr
import flowstab
from flowstab import _cython_subst, network_clustering as nc, sparse_stoch_mat as sm
import _cython_fast_funcs as cff
import _cython_sparse_stoch as css
try:
    from flowstab import _cython_sparse_stoch_subst as css2
except ImportError:
    css2 = None

PROPERTY = "C21"
RULE = ("every kernel: compiled as shipped, compiled from the same source with bounds checking enabled and library "
        "assertions, and the Python substitute, against the dense definition, with all arguments placed between poisoned "
        "guard cells; all csr supports of 1-3 nodes (incl. empty rows, stored zeros) x index subsets x partitions x moves, all pairs of "
        "sparse stochastic operands over all index subsets of 3 nodes, all pairs of partitions of 2-4 nodes; and the classes "
        "themselves with the substitutes in place; non-trivial when (kernel, input) is new")
ASSUMPTIONS = ["inputs are valid: sorted unique indices; rows kept by the full-to-small conversion have entries in kept columns only; "
               "non-negative matrices for aggregate_csr_mat", "clusters are non-empty for cython_nvi_mat"]
CHUNK = 2
CASE_TIMEOUT = 400
PAD = 8


def _instrumented():
    """The same .pyx sources compiled with bounds checking on (in the scratch directory of this run)."""
    src = os.path.dirname(flowstab.__file__)
    work = os.path.join(os.environ.get("FSMC_SCRATCH") or "/tmp", "c21_bc")
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(work, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        done = os.path.join(work, "done")
        if not os.path.exists(done):
            pkg = os.path.join(work, "flowstab")
            os.makedirs(pkg, exist_ok=True)
            open(os.path.join(pkg, "__init__.py"), "w").close()
            for f in os.listdir(src):
                if f.endswith((".pxd", ".h", ".hpp")) or (f.endswith((".cpp", ".c")) and not f.startswith("_cython")):
                    shutil.copy(os.path.join(src, f), pkg)
            jobs = []
            inc = ["-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"], "-I" + pkg]
            for name, new in (("_cython_fast_funcs", "_bc_fast_funcs"), ("_cython_sparse_stoch", "_bc_sparse_stoch")):
                with open(os.path.join(src, name + ".pyx")) as f:
                    text = f.read()
                text = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", text)
                text = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", text)
                with open(os.path.join(pkg, new + ".pyx"), "w") as f:
                    f.write(text)
                so = os.path.join(work, new + sysconfig.get_config_var("EXT_SUFFIX"))
                cmd = (f"{sys.executable} -m cython -3 --cplus -I {work} {pkg}/{new}.pyx -o {pkg}/{new}.cpp --module-name {new} && "
                       f"g++ -O0 -w -shared -fPIC -D_GLIBCXX_ASSERTIONS -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION "
                       f"{' '.join(inc)} {pkg}/{new}.cpp -o {so}")
                jobs.append(subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
            for j in jobs:
                out, _ = j.communicate()
                if j.returncode:
                    raise RuntimeError("building the bounds-checked kernels failed:\n" + out.decode()[-3000:])
            open(done, "w").close()
        mods = []
        for new in ("_bc_fast_funcs", "_bc_sparse_stoch"):
            so = os.path.join(work, new + sysconfig.get_config_var("EXT_SUFFIX"))
            spec = importlib.util.spec_from_file_location(new, so)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            mods.append(m)
        return mods


BC_FAST, BC_CSS = None, None


def _ensure():
    global BC_FAST, BC_CSS
    if BC_CSS is None:
        BC_FAST, BC_CSS = _instrumented()


class Guard:
    """Arguments surrounded by poison; verifies that nothing around (and, unless in place, inside) them changed."""

    def __init__(self, what):
        self.what = what
        self.items = []

    def f(self, a, inplace=False):
        return self._put(np.asarray(a, dtype=np.float64), np.nan, inplace)

    def i(self, a, dtype=np.int32):
        return self._put(np.asarray(a, dtype=dtype), 1 << 28, False)

    def _put(self, a, poison, inplace):
        big = np.full(a.size + 2 * PAD, poison, dtype=a.dtype)
        big[PAD:PAD + a.size] = a.ravel()
        self.items.append((big, a.copy(), inplace))
        return big[PAD:PAD + a.size]

    def verify(self):
        for big, a, inplace in self.items:
            m = np.r_[big[:PAD], big[PAD + a.size:]]
            ok = np.isnan(m).all() if a.dtype.kind == "f" else (m == 1 << 28).all()
            expect(ok, f"{self.what}: wrote outside its arguments")
            if not inplace:
                expect((big[PAD:PAD + a.size] == a.ravel()).all(), f"{self.what}: modified its argument")


def impls(name):
    out = []
    if hasattr(BC_CSS, name):
        out.append(("bounds-checked", getattr(BC_CSS, name)))
    if hasattr(css, name):
        out.append(("compiled", getattr(css, name)))
    if hasattr(_cython_subst, name):
        out.append(("substitute", getattr(_cython_subst, name)))
    if css2 is not None and hasattr(css2, name):
        out.append(("substitute2", getattr(css2, name)))
    return out


def fast(name):
    return [("bounds-checked", getattr(BC_FAST, name)), ("compiled", getattr(cff, name))]


# ------------------------------------------------------------------ inputs

def csr_of(n, bits, zero_at=None, neg=False):
    """Sorted csr triple of a support with generic values; one stored zero optionally."""
    data, idx, ptr = [], [], [0]
    for i in range(n):
        for j in range(n):
            k = i * n + j
            if bits >> k & 1:
                v = 0.2 + 0.13 * k
                if neg and k % 2:
                    v = -v
                if k == zero_at:
                    v = 0.0
                data.append(v)
                idx.append(j)
        ptr.append(len(idx))
    return data, idx, ptr


def dense_of(n, data, idx, ptr):
    A = np.zeros((n, n))
    for i in range(n):
        for k in range(ptr[i], ptr[i + 1]):
            A[i, idx[k]] += data[k]
    return A


def csc_of(A, n, bits, zero_at):
    d, ix, p = [], [], [0]
    for j in range(n):
        for i in range(n):
            if bits >> (i * n + j) & 1:
                d.append(A[i, j])
                ix.append(i)
        p.append(len(ix))
    return d, ix, p


def subsets(n):
    return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def cases(tier):
    yield dict(kind="nvi", n=2)
    yield dict(kind="nvi", n=3)
    for n in (1, 2):
        for bits in range(2 ** (n * n)):
            yield dict(kind="csr", n=n, bits=[bits])
    for r in range(len(list(ref.set_partitions(4)))):
        yield dict(kind="nvi", n=4, first=r)
    sub3 = subsets(3)
    for a in range(len(sub3)):
        for b in range(len(sub3)):
            yield dict(kind="stoch", a=a, b=b)
    for s in subsets(4):
        yield dict(kind="small", n=4, nz=s)
    for s in sub3:
        yield dict(kind="small", n=3, nz=s)
    for n in (1, 2, 3, 4):
        yield dict(kind="dense", n=n)
    for bits in range(0, 512, 4):
        yield dict(kind="csr", n=3, bits=list(range(bits, bits + 4)))
    for name in range(4):
        yield dict(kind="big", name=name)
    for i in range(8):
        yield dict(kind="classes", i=i)
    if tier == "thorough":
        for bits in range(0, 65536, 64):
            yield dict(kind="csr", n=4, bits=list(range(bits, bits + 64, 7)))


def check(case, ctx):
    _ensure()
    {"csr": _csr, "nvi": _nvi, "stoch": _stoch, "small": _small, "dense": _dense, "big": _big, "classes": _classes}[case["kind"]](case, ctx)


def run(ctx, g, fn, *args):
    try:
        return fn(*args)
    except IndexError as e:
        raise Violation(f"{g.what}: access outside an array: {e}")


def _kernels_on_csr(n, data, idx, ptr, csc, ctx, partitions, idx_sets, moves=True):
    A = dense_of(n, data, idx, ptr)
    stored = np.zeros((n, n), bool)
    for i in range(n):
        for k in range(ptr[i], ptr[i + 1]):
            stored[i, idx[k]] = True
    base = f"matrix {A.tolist()}"
    # row normalisation
    for t in (1.0, 0.0, 2.5):
        for nm, fn in impls("inplace_csr_row_normalize"):
            if nm == "substitute2" and t == 0.0:
                continue
            g = Guard(f"{nm} inplace_csr_row_normalize to {t} of {base}")
            d, p = g.f(data, True), g.i(ptr, np.int64)
            run(ctx, g, fn, d, p, n, t)
            g.verify()
            expect_close(dense_of(n, d, idx, ptr), _norm(A, stored, t), g.what, tol=1e-10)
            ctx.step()
    tv = np.array([0.0 if i % 2 else 1.0 + i for i in range(n)])
    for nm, fn in impls("inplace_csr_row_normalize_array"):
        g = Guard(f"{nm} inplace_csr_row_normalize_array to {tv} of {base}")
        d, p, r = g.f(data, True), g.i(ptr, np.int64), g.f(tv)
        run(ctx, g, fn, d, p, n, r)
        g.verify()
        expect_close(dense_of(n, d, idx, ptr), _norm(A, stored, tv), g.what, tol=1e-10)
        ctx.step()
    # sub-matrix sums
    for rows, cols in itertools.product(idx_sets, repeat=2):
        want = A[np.ix_(rows, cols)].sum() if rows and cols else 0.0
        for nm, fn in impls("get_submat_sum"):
            g = Guard(f"{nm} get_submat_sum rows {rows} cols {cols} of {base}")
            got = run(ctx, g, fn, g.f(data), g.i(idx), g.i(ptr), g.i(rows), g.i(cols))
            g.verify()
            expect(abs(got - want) < 1e-12, f"{g.what}: {got} instead of {want}")
            ctx.step()
    # aggregation
    for part in partitions:
        arr = [x for c in part for x in sorted(c)]
        pp = np.cumsum([0] + [len(c) for c in part])
        W = np.array([[A[np.ix_(sorted(a), sorted(b))].sum() if a and b else 0.0 for b in part] for a in part])
        for kern in ("aggregate_csr_mat", "aggregate_csr_mat_2"):
            for nm, fn in impls(kern):
                g = Guard(f"{nm} {kern} by {part} of {base}")
                bd, br, bc, ns = run(ctx, g, fn, g.f(data), g.i(idx), g.i(ptr), g.i(arr), g.i(pp))
                g.verify()
                expect(ns == len(part), f"{g.what}: size {ns}")
                B = np.zeros((len(part), len(part)))
                for v, i, j in zip(bd, br, bc):
                    expect(0 <= i < ns and 0 <= j < ns, f"{g.what}: index ({i},{j})")
                    B[i, j] += v
                expect_close(B, W, g.what, tol=1e-12)
                ctx.step()
    # move gains
    if moves:
        p1 = np.arange(1.0, n + 1) / (n * (n + 1) / 2)
        p2 = p1[::-1].copy()
        for k, ids in itertools.product(range(n), idx_sets):
            rest = [x for x in ids if x != k]
            lin = sum(A[k, x] + A[x, k] for x in rest)
            linp = sum(p1[k] * p2[x] + p1[x] * p2[k] for x in rest)
            args = lambda g: (g.f(data), g.i(idx), g.i(ptr), g.f(csc[0]), g.i(csc[1]), g.i(csc[2]), k)
            todo = []
            if k not in ids:
                todo.append(("compute_delta_PT_moveto", ids, lin + A[k, k], False))
                todo.append(("compute_delta_S_moveto", ids, lin + A[k, k] - linp - p1[k] * p2[k], True))
            else:
                todo.append(("compute_delta_PT_moveout", ids, -lin - 2 * A[k, k] + A[k, k], False))
                todo.append(("compute_delta_S_moveout", ids, -lin - A[k, k] + linp + 2 * p1[k] * p2[k] - p1[k] * p2[k], True))
            for kern, ii, want, withp in todo:
                for nm, fn in impls(kern):
                    g = Guard(f"{nm} {kern} node {k} cluster {ii} of {base}")
                    a = args(g) + (g.i(ii),) + ((g.f(p1), g.f(p2)) if withp else ())
                    got = run(ctx, g, fn, *a)
                    g.verify()
                    expect(abs(got - want) < 1e-12, f"{g.what}: {got} instead of {want}")
                    ctx.step()
    ctx.trace()
    ctx.outcome(canon_array(A))


def _norm(A, stored, target):
    out = A.copy()
    for i in range(len(A)):
        s = A[i].sum()
        t = target if np.isscalar(target) else target[i]
        if s != 0.0:
            out[i] = np.where(stored[i], A[i] - s / max(stored[i].sum(), 1), 0.0) if t == 0.0 else A[i] * (t / s)
    return out


def _csr(case, ctx):
    n = case["n"]
    parts = [ref.rgs_to_sets(r) for r in ref.set_partitions(n)]
    parts += [p + [set()] for p in parts[:1]]
    for bits in case["bits"]:
        for zero_at in (None, 0, n * n - 1):
            if zero_at is not None and not bits >> zero_at & 1:
                continue
            data, idx, ptr = csr_of(n, bits, zero_at)
            A = dense_of(n, data, idx, ptr)
            ids = subsets(n) if n < 3 else [(), (0,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]
            if zero_at is not None:
                ids = ids[1::3]
            _kernels_on_csr(n, data, idx, ptr, csc_of(A, n, bits, zero_at), ctx, parts if zero_at is None else parts[:2], ids)
            ctx.state(repr((n, bits, zero_at)))


def _big(case, ctx):
    """Larger structured matrices (40-60 nodes): size dependent behaviour."""
    k = case["name"]
    n = 40 + 5 * k
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if [(i * 7 + j * 3) % 11 == 0, abs(i - j) <= 2 and i % 9, i // 8 == j // 8, j == n - 1 - i or j == 0][k]:
                A[i, j] = 0.1 + ((i * 31 + j * 17) % 13) / 7
    M = csr_matrix(A)
    C = M.tocsc()
    parts = [[set(range(i, n, 7)) for i in range(7)], [set(range(n // 2)), set(range(n // 2, n))], [{i} for i in range(n)]]
    ids = [(), (0,), tuple(range(0, n, 3)), tuple(range(n // 2, n)), tuple(range(n))]
    _kernels_on_csr(n, M.data, M.indices, M.indptr, (C.data, C.indices, C.indptr), ctx, parts, ids)
    ctx.state(repr(("big", k)))


SUB3 = subsets(3)


def _operands(size, nz):
    """Small matrices for an index set: generic, with empty rows, with a stored zero, empty."""
    m = len(nz)
    out = []
    full = (1 << m * m) - 1
    for bits, z in {(full, None), (full, 0), (0, None), (full & ~((1 << m) - 1), None), (full & 0b101010101, None)} if m else {(0, None)}:
        d, i, p = csr_of(m, bits, z)
        out.append((d, i, p))
    return sorted(out)


def _full(size, nz, trip, dv):
    F = np.eye(size) * dv
    S = dense_of(len(nz), *trip)
    F[np.ix_(nz, nz)] = S if len(nz) else 0.0
    return F


def _stoch(case, ctx):
    size = 3
    na, nb = SUB3[case["a"]], SUB3[case["b"]]
    for ta, tb, (da, db) in itertools.product(_operands(size, na), _operands(size, nb), ((1.0, 1.0), (0.5, -2.0), (0.0, 1.0), (0.7, 0.7))):
        FA, FB = _full(size, na, ta, da), _full(size, nb, tb, db)
        for kern, W in (("stoch_mat_add", FA + FB), ("stoch_mat_sub", FA - FB)):
            for nm, fn in impls(kern):
                g = Guard(f"{nm} {kern} of rows {na} diagonal {da}\n{FA}\nand rows {nb} diagonal {db}\n{FB}")
                r = run(ctx, g, fn, size, g.f(ta[0]), g.i(ta[1]), g.i(ta[2]), g.i(na), da, g.f(tb[0]), g.i(tb[1]), g.i(tb[2]), g.i(nb), db)
                g.verify()
                _check_result(r, size, W, sorted(set(na) | set(nb)), g.what)
                ctx.step()
        ctx.state(repr((na, nb, ta, tb, da, db)))
        ctx.outcome(canon_array(FA + FB) + canon_array(FA - FB))
    ctx.trace()


def _check_result(r, size, W, nz, what):
    sz, d, ix, p, rows, dv = r
    d, ix, p = np.asarray(d, dtype=float), np.asarray(ix), np.asarray(p)
    expect(sz == size and list(rows) == list(nz), f"{what}: size {sz} rows {list(rows)} instead of {nz}")
    m = len(nz)
    expect(len(p) == m + 1 and p[0] == 0 and (np.diff(p) >= 0).all() and p[-1] <= len(ix), f"{what}: indptr {p}")
    F = np.eye(size) * dv
    S = np.zeros((m, m))
    for i in range(m):
        for k in range(p[i], p[i + 1]):
            expect(0 <= ix[k] < m, f"{what}: column {ix[k]}")
            S[i, ix[k]] += d[k]
    if m:
        F[np.ix_(nz, nz)] = S
    expect_close(F, W, what, tol=1e-12)


def _small(case, ctx):
    """Full-size <-> small conversions."""
    size, nz = case["n"], case["nz"]
    for trip in _operands(size, nz):
        for dv in (1.0, 0.0, -0.5):
            F = _full(size, nz, trip, dv)
            for nm, fn in impls("rebuild_nnz_rowcol"):
                g = Guard(f"{nm} rebuild_nnz_rowcol rows {nz} of size {size} diagonal {dv} small {trip}")
                d, ix, p, nr = run(ctx, g, fn, g.f(trip[0]), g.i(trip[1], np.int64), g.i(trip[2], np.int64), g.i(nz, np.int64), size, dv)
                g.verify()
                M = csr_matrix((np.asarray(d), np.asarray(ix), np.asarray(p)), shape=(size, size))
                expect(nr == size, f"{g.what}: size {nr}")
                expect_valid_csr(M, g.what)
                expect_close(M, F, g.what, tol=1e-12)
                ctx.step()
            # back: every superset of nz may be kept
            for more in subsets(size):
                keep = sorted(set(nz) | set(more))
                M = csr_matrix(F)
                for nm, fn in impls("sparse_stoch_from_full_csr"):
                    g = Guard(f"{nm} sparse_stoch_from_full_csr keep {keep} diagonal {dv} of\n{F}")
                    r = run(ctx, g, fn, g.i(keep), g.f(M.data), g.i(M.indices), g.i(M.indptr), dv)
                    g.verify()
                    _check_result(r, size, F, keep, g.what)
                    ctx.step()
            ctx.state(repr((size, nz, trip, dv)))
            ctx.outcome(canon_array(F))
    ctx.trace()


def _dense(case, ctx):
    n = case["n"]
    fams = []
    for base in range(6):
        A = np.array([[((i * 5 + j * 3 + base) % 7) / 3 - (0.5 if base % 2 else 0) for j in range(n)] for i in range(n)])
        fams.append(A)
    for A in fams:
        for k in range(n):
            for ids in subsets(n):
                for nm, fn in fast("sum_Sto"):
                    got = run(ctx, Guard(f"{nm} sum_Sto"), fn, np.ascontiguousarray(A), k, list(ids))
                    want = sum(A[k, i] + A[i, k] for i in ids) + A[k, k]
                    expect(abs(got - want) < 1e-12, f"{nm} sum_Sto node {k} cluster {ids} of {A.tolist()}: {got} instead of {want}")
                for nm, fn in fast("sum_Sout"):
                    got = run(ctx, Guard(f"{nm} sum_Sout"), fn, np.ascontiguousarray(A), k, list(ids))
                    want = -sum(A[k, i] + A[i, k] for i in ids) + A[k, k]
                    expect(abs(got - want) < 1e-12, f"{nm} sum_Sout node {k} cluster {ids} of {A.tolist()}: {got} instead of {want}")
                ctx.step(4)
        p1 = np.arange(1.0, n + 1)
        p1 /= p1.sum()
        T = np.abs(A) + 0.1
        T /= T.sum(1, keepdims=True)
        for p2 in (p1 @ T, p1[::-1].copy()):
            for nm, fn in fast("compute_S"):
                g = Guard(f"{nm} compute_S of {T.tolist()}")
                expect_close(run(ctx, g, fn, g.f(p1), g.f(p2), T.copy()), np.diag(p1) @ T - np.outer(p1, p2), g.what, tol=1e-12)
                g.verify()
            for nm, fn in fast("compute_S_0t0"):
                g = Guard(f"{nm} compute_S_0t0 of {T.tolist()}")
                expect_close(run(ctx, g, fn, g.f(p1), g.f(p2), T.copy()),
                             np.diag(p1) @ T @ np.diag(1 / p2) @ T.T @ np.diag(p1) - np.outer(p1, p1), g.what, tol=1e-12)
                g.verify()
            ctx.step(4)
        ctx.state(canon_array(A))
        ctx.outcome(canon_array(T))
        ctx.trace()


def _nvi(case, ctx):
    n = case["n"]
    rgs = list(ref.set_partitions(n))
    for a, b in itertools.product(rgs if "first" not in case else [rgs[case["first"]]], rgs):
        A, B = ref.rgs_to_sets(a), ref.rgs_to_sets(b)
        want = ref.nvi(A, B)
        pairs = [(A, B), (A[::-1], [set(c) for c in B[1:] + B[:1]])]
        for X, Y in pairs:
            X, Y = [set(c) for c in X], [set(c) for c in Y]
            for kern, args in (("cython_nvi", (X, Y, n)), ("cython_nvi_parallel", (X, Y, n, 2)), ("cython_nvi_mat", (X, Y, n)),
                               ("cython_nvi_vectors", ([np.array(sorted(c)[::-1], dtype=np.int32) for c in X],
                                                       [array("i", sorted(c)) for c in Y], n))):
                if not hasattr(cff, kern):
                    continue
                for nm, fn in fast(kern):
                    got = run(ctx, Guard(f"{nm} {kern} {X} {Y}"), fn, *args)
                    expect(abs(got - want) < 1e-10, f"{nm} {kern} of {X} and {Y}: {got} instead of {want}")
                    ctx.step()
            if len(X) > 1 or len(Y) > 1:
                for nm, fn in fast("cython_nmi"):
                    got = run(ctx, Guard(f"{nm} cython_nmi {X} {Y}"), fn, X, Y, n, len(X), len(Y))
                    expect(abs(got - ref.nmi(X, Y)) < 1e-10, f"{nm} cython_nmi of {X} and {Y}: {got} instead of {ref.nmi(X, Y)}")
                    ctx.step()
            expect(X == [set(c) for c in X], "clusters modified")
            # without the compiled functions
            old = nc.USE_CYTHON
            try:
                for use in (True, False):
                    nc.USE_CYTHON = use
                    got = nc.norm_var_information([set(c) for c in X], [set(c) for c in Y])
                    expect(abs(got - want) < 1e-10, f"norm_var_information compiled={use} of {X} and {Y}: {got} instead of {want}")
                    got = nc.norm_mutual_information([set(c) for c in X], [set(c) for c in Y])
                    nmi = ref.nmi(X, Y)
                    expect(abs(got - (1 if nmi is None else nmi)) < 1e-10, f"norm_mutual_information compiled={use} of {X} and {Y}: {got}")
            finally:
                nc.USE_CYTHON = old
            ctx.step(4)
        ctx.state(repr((a, b)))
        ctx.outcome(repr(round(want, 9)))
    ctx.trace()


def _classes(case, ctx):
    """The classes deliver the same with the substitutes in place of the compiled kernels."""
    i = case["i"]
    n = 5
    A = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if a == b or (a * (i + 1) + b * 3) % 4 == 1:
                A[a, b] = 0.3 + ((a * 7 + b * 5 + i) % 6)
    if i % 2:
        A[2] = 0
        A[:, 2] = 0
        A[2, 2] = 1
    T = A / A.sum(1, keepdims=True)
    p1 = (np.arange(n) + 1.0 + i)
    p1 /= p1.sum()

    def everything():
        out = []
        M = sm.SparseStochMat.from_full_csr_matrix(csr_matrix(T))
        D = sm.SparseStochMat.create_diag(n)
        for X in (M + D, D + M, M - D, M @ M, M.T, M + M, 0.5 * M):
            out.append(X.toarray())
        Y = M.copy()
        sm.inplace_csr_row_normalize(Y, 2.0)
        out.append(Y.toarray())
        S = sm.SparseAutocovMat.from_T(csr_matrix(T), p1)
        out.append(S.toarray())
        for r in ref.set_partitions(n):
            cl = ref.rgs_to_sets(r)
            out.append(S.aggregate([sorted(c) for c in cl]).toarray())
            for k in range(n):
                for c in cl:
                    idx = array("i", sorted(c - {k}))
                    if len(idx):
                        out.append(np.array(S._compute_delta_S_moveto(k, idx)) if hasattr(S, "_compute_delta_S_moveto") else np.array(0.0))
        cs = nc.SparseClustering(T=csr_matrix(T), p1=p1, rnd_seed=i)
        cs.find_louvain_clustering()
        out.append(np.array(cs.compute_stability()))
        cd = nc.Clustering(T=T, p1=p1, rnd_seed=i)
        cd.find_louvain_clustering()
        out.append(np.array(cd.compute_stability()))
        return out, (ref.canon_clusters(cs.partition.cluster_list), ref.canon_clusters(cd.partition.cluster_list))

    real, rp = everything()
    old = sm._css, nc.USE_CYTHON
    try:
        sm._css, nc.USE_CYTHON = _cython_subst, False
        sub, sp = everything()
    finally:
        sm._css, nc.USE_CYTHON = old
    expect(len(real) == len(sub), f"case {i}: different number of results")
    for k, (a, b) in enumerate(zip(real, sub)):
        expect_close(b, a, f"matrix {T.tolist()}: result {k} with the substitutes", tol=1e-10)
        ctx.step()
    expect(rp == sp, f"matrix {T.tolist()}: partitions {sp} with the substitutes, {rp} compiled")
    ctx.state(repr(("classes", i)))
    ctx.outcome(canon_array(T))
    ctx.trace()
