"""C25 - run_laplacians_transmats: slices, batches, orders and interruptions do not change what is computed."""
import gzip
import itertools
import os
import pickle

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import batch
from checks import families as fam
from flowstab.temporal_network import ContTempNetwork

PROPERTY = "C25"
RULE = ("networks x slicings (number, length, bounds, bounds stored with the network, empty slices) x resolutions x batches "
        "x skipped slices x stored kinds x storage options; every order of the slices over the workers; a crash before every "
        "file operation followed by a rerun; a case is non-trivial when the matrices of its files are new")
ASSUMPTIONS = ["contacts of one pair do not overlap", "waiting times with at most 4 significant digits (the file name format)",
               "a crash happens between two operations on files (inside one: C30)", "flow integrals are requested for slices with events only"]
CHUNK = 1
NAME = "run_laplacians_transmats"


def nets():
    t = fam.tiny_events()
    return [(t[1], "int"), (t[2], "int"), (t[7], "int"), (t[5], "half"), (fam.big_events()[0], "raw")]


OPTS = [                                               # (arguments, tolerance scale)
    ["--save_inter_T"],
    ["--save_inter_T", "--compress_inter_T", "--use_dense_expm"],
    ["--save_inter_T", "--save_delta_inter_T", "--not_use_sparse_stoch"],
    ["--save_inter_T", "--save_delta_inter_T", "--not_use_sparse_stoch", "--use_dense_expm", "--compress_inter_T"],
    ["--save_inter_T", "--not_lin_transmat"],
    ["--save_inter_T", "--not_expm_transmat", "--t_s", "3"],
    ["--save_slice_trans"],
    ["--save_slice_trans", "--force_csr", "--compress_slice_trans"],
    ["--save_slice_trans", "--not_use_sparse_stoch", "--not_lin_transmat"],
    ["--save_inter_T", "--save_slice_trans", "--save_static_adjacencies"],
    ["--save_slice_trans", "--not_expm_transmat", "--save_static_adjacencies"],
    ["--save_inter_T", "--save_slice_trans", "--tol", "1e-3"],
    ["--save_slice_trans", "--save_flow_int"],
    ["--save_slice_trans", "--save_flow_int", "--not_use_sparse_stoch", "--save_inter_T", "--save_delta_inter_T"],
]

SLICES = [["--num_slices", "1"], ["--num_slices", "2"], ["--num_slices", "4"], ["--num_slices", "3"],
          ["--slice_length", "1"], ["--slice_length", "0.5"], ["--slice_length", "1.5"],
          ["--num_slices", "2", "--t0", "1"], ["--slice_length", "1", "--tend", "3"],
          ["--slice_length", "0.75", "--t0", "0.5", "--tend", "2"], ["--time_slices_from_net_file"]]


NAMES = ["a_week", "w", "x_int000009", "my.net", "nn_b", "n n", "PT_lin", "trans_mat", "v1.5_w2"]


def cases(tier):
    for i, (ev, g) in enumerate(nets()):
        for sl in SLICES:
            yield dict(kind="slices", ev=ev, grid=g, sl=sl, opt=OPTS[9], tau=["1", "0.25"])
            yield dict(kind="slices", ev=ev, grid=g, sl=sl, opt=OPTS[2], tau=["3"])
        for k, o in enumerate(OPTS):
            if "--save_flow_int" in o:
                sl = ["--num_slices", "1"] if i == 1 else ["--time_slices_from_net_file"]
                yield dict(kind="slices", ev=ev, grid=g, sl=sl, opt=o, tau=["1", "60"], filled=True)
            else:
                yield dict(kind="slices", ev=ev, grid=g, sl=SLICES[2], opt=o, tau=["1", "60", "0.003"])
    for ev, g in nets()[:3]:
        for nb in (1, 2, 3, 5):
            yield dict(kind="batches", ev=ev, grid=g, sl=["--slice_length", "1"], opt=OPTS[0], tau=["1"], nb=nb)
        for r in (1, 2):
            for skip in itertools.combinations(range(4), r):
                yield dict(kind="slices", ev=ev, grid=g, sl=["--slice_length", "1"], opt=OPTS[0], tau=["2"], skip=list(skip))
    for ev, g in nets()[:3] if tier == "quick" else nets():
        yield dict(kind="orders", ev=ev, grid=g, sl=["--slice_length", "1"], opt=OPTS[9], tau=["1", "2"])
    for j, (ev, g) in enumerate(nets()[:4]):
        for k in ([9, 2, 5, 8, 10, 12] if tier == "quick" else [0, 1, 2, 5, 6, 7, 9, 10, 12, 13]):
            sl = SLICES[2] if k < 12 else ["--num_slices", "1"]
            yield dict(tier=tier, kind="crash", ev=ev, grid=g, sl=sl, opt=OPTS[k], tau=["1", "2"] if j < 2 else ["1"])
    for name in NAMES:
        yield dict(kind="slices", ev=nets()[1][0], grid="int", sl=SLICES[2], opt=OPTS[9], tau=["1", "0.25"], name=name)
    for ev, g in nets()[:3]:
        for a, b in ((OPTS[6], OPTS[9]), (OPTS[0], OPTS[9]), (OPTS[4], OPTS[9]), (OPTS[4], OPTS[0]),
                     (["--save_inter_T", "--not_expm_transmat"], OPTS[9]), (["--save_inter_T", "--not_expm_transmat"], OPTS[0]),
                     (["--save_static_adjacencies"], OPTS[0] + ["--save_static_adjacencies"])):
            yield dict(kind="more", ev=ev, grid=g, sl=SLICES[2], opt=b, first=a, tau=["1", "2"])
        yield dict(kind="more", ev=ev, grid=g, sl=SLICES[2], opt=OPTS[9], first=OPTS[9], tau=["1", "2"], tau1=["2"])
        for o in (0, 4, 5, 6, 8, 10, 3):
            for t1, t2 in ((["2"], ["1", "2"]), (["1"], ["1", "2"]), (["1"], ["2", "1", "3"])):
                yield dict(kind="more", ev=ev, grid=g, sl=SLICES[1], opt=OPTS[o], first=OPTS[o], tau=t2, tau1=t1)
    for ev, g in nets()[:1] if tier == "quick" else nets()[:3]:
        yield dict(tier=tier, kind="crash2", ev=ev, grid=g, sl=["--num_slices", "2"], opt=OPTS[9], tau=["1"])


def opt(args, key, default=None):
    return args[args.index(key) + 1] if key in args else default


def events(case):
    if case["grid"] == "half":
        return fam.on_grid(case["ev"], [0, 0.5, 1.25, 2])
    return fam.on_grid(case["ev"], case["grid"])


def bounds(case, times):
    sl = case["sl"]
    if "--time_slices_from_net_file" in sl:
        return stored_bounds(case, times)
    t0 = float(opt(sl, "--t0", times[0]))
    tend = float(opt(sl, "--tend", times[-1]))
    length = opt(sl, "--slice_length")
    length = float(length) if length else (tend - t0) / int(opt(sl, "--num_slices"))
    b = [t0]
    while b[-1] < tend:
        b.append(b[-1] + length)
    return b


def stored_bounds(case, times):
    if case.get("filled"):
        return [times[0], times[1], times[-1]]
    return [times[0], times[0] + 0.25, times[1], times[-1]]


def save_net(case, d):
    ev = events(case)
    net = fam.network(ev)
    net.time_slices_bounds = stored_bounds(case, ref.event_times(ev))
    net.save(os.path.join(d, "net.pickle"), matrices_list=[],
             attributes_list=["node_to_label_dict", "events_table", "times", "time_grid", "num_nodes",
                              "_compute_times", "time_slices_bounds"])


def expected(case):
    """File name (without extension) -> (kind, matrices, extra)."""
    ev = events(case)
    o = case["opt"]
    times = ref.event_times(ev)
    b = bounds(case, times)
    ts = float(opt(o, "--t_s", 10))
    n = len(ref.node_labels(ev))
    nn = case.get("name", "nn")
    out = {}
    for i, (a, z) in enumerate(zip(b[:-1], b[1:])):
        if i in case.get("skip", ()):
            continue
        k0, k1 = ref.window(times, a, z)
        As = ref.adjacencies(ev, a, z)
        tau = np.diff(times[k0:k1 + 1])
        meta = dict(k0=k0, k1=k1, t0=times[k0], t1=times[k1], times=times[k0:k1 + 1], n=n)
        if "--save_static_adjacencies" in o:
            out[f"{nn}_static_adjacency_int{i:06d}"] = ("adj", (a, z), meta)
        for tw in case["tau"]:
            lam = 1 / float(tw)
            base = f"{nn}_tau_w{float(tw):.3e}_int{i:06d}_"
            for lin in (False, True):
                if ("--not_lin_transmat" if lin else "--not_expm_transmat") in o:
                    continue
                Ts = [ref.lin_approx(A, lam * t, ts) if lin else ref.expm_rw(ref.rw_laplacian(A), lam * t)
                      for A, t in zip(As, tau)] or [np.eye(n)]
                s = "_lin" if lin else ""
                m = dict(meta, lam=lam, lin=lin, ts=ts)
                if "--save_inter_T" in o:
                    out[base + s + "_inter_trans_mat"] = ("inter", Ts, m)
                if "--save_slice_trans" in o:
                    for rev in (False, True):
                        r = "_reversed" if rev else ""
                        out[base + r + s + "_trans_mat"] = ("T", [ref.products(Ts, rev)[-1]], m)
                        if "--save_flow_int" in o:
                            out[base + r + s + "_flow_int"] = ("flow", ref.flow_integrals(Ts, m["times"], reverse=rev), m)
    return out


def compare(case, d, what, ctx):
    want = expected(case)
    names = {}
    for f in batch.finished(d):
        stem = f
        for e in (".gz", ".pickle"):
            if stem.endswith(e):
                stem = stem[:-len(e)]
        expect(stem not in names, f"{what}: {stem} is stored twice")
        names[stem] = f
    expect(set(names) == set(want), f"{what}: files {sorted(set(names) - set(want))} too many, "
                                    f"{sorted(set(want) - set(names))} missing")
    slack = 1e-7 + 20 * float(opt(case["opt"], "--tol", 1e-8))
    full = None
    for stem, (kind, mats, m) in want.items():
        path = os.path.join(d, names[stem])
        w = f"{what}: {names[stem]}"
        n = m["n"]
        if kind == "adj":
            with open(path, "rb") as f:
                A = pickle.load(f)
            full = full or fam.network(events(case))
            expect_close(A, full.compute_static_adjacency_matrix(start_time=mats[0], end_time=mats[1]), w)
            continue
        if kind == "flow":
            with open(path, "rb") as f:
                S = pickle.load(f)
            S = S.toarray() if hasattr(S, "toarray") else np.asarray(S)
            expect_close(S, mats[-1], w, tol=slack)
            ctx.outcome(canon_array(S, 6))
            continue
        z = ContTempNetwork.load_inter_T(path) if kind == "inter" else ContTempNetwork.load_T(path)
        key = ("inter_T" if kind == "inter" else "T") + ("_lin" if m["lin"] else "")
        expect(set(z[key]) == {m["lam"]}, f"{w}: rates {list(z[key])} instead of {m['lam']}")
        Ts = z[key][m["lam"]]
        if m["lin"]:
            expect(set(Ts) == {m["ts"]}, f"{w}: t_s {list(Ts)}")
            Ts = Ts[m["ts"]]
        Ts = Ts if kind == "inter" else [Ts]
        expect(len(Ts) == len(mats), f"{w}: {len(Ts)} matrices instead of {len(mats)}")
        for j, (T, W) in enumerate(zip(Ts, mats)):
            expect_close(T, W, f"{w}: matrix {j}", tol=slack)
        expect(z["_t_start_laplacians"] == m["t0"] and z["_t_stop_laplacians"] == m["t1"],
               f"{w}: from {z['_t_start_laplacians']} to {z['_t_stop_laplacians']} instead of {m['t0']} to {m['t1']}")
        expect(z["_k_start_laplacians"] == m["k0"] and z["_k_stop_laplacians"] == m["k1"] and z["num_nodes"] == n,
               f"{w}: indices or number of nodes")
        if kind == "inter":
            expect(list(z["times_k_start_to_k_stop+1"]) == list(m["times"]), f"{w}: times {z['times_k_start_to_k_stop+1']}")
        ctx.outcome(b"".join(canon_array(dense(T), 6) for T in Ts))
        ctx.step(len(Ts))


def argv(case, data, out, extra=()):
    a = ["--datadir", data, "--savedir", out, "--net_filename", "net.pickle", "--net_name", case.get("name", "nn"), "--ncpu", "2"]
    a += case["sl"] + case["opt"] + ["--tau_w_list"] + case["tau"]
    if case.get("skip"):
        a += ["--intervals_to_skip"] + [str(s) for s in case["skip"]]
    return a + list(extra)


def check(case, ctx):
    with batch.scratch() as d:
        data = os.path.join(d, "data")
        os.mkdir(data)
        save_net(case, data)
        count = itertools.count()

        def fresh():
            out = os.path.join(d, f"out{next(count)}")
            os.mkdir(out)
            return out

        def run(out, **kw):
            r = batch.run_script(NAME, argv(case, data, out, kw.pop("extra", ())), out, **kw)
            ctx.trace()
            return r

        what = f"{NAME} {' '.join(case['sl'] + case['opt'])} tau {case['tau']} skip {case.get('skip')} name {case.get('name')} events {events(case)}"

        def verify(out, runs, note, c=case):
            try:
                compare(c, out, what + note, ctx)
            except Exception as e:
                e.args = (f"{e}\n--- output of the script:\n{batch.errors(runs[-1].out)}",) + e.args[1:]
                raise
            ctx.state(repr((case, note)))

        if case["kind"] == "slices":
            out = fresh()
            r = run(out)
            verify(out, [r], "")
            r = run(out)                                # a second run changes nothing
            verify(out, [r], " (run twice)")
        elif case["kind"] == "more":                    # an earlier run that asked for less
            out = fresh()
            first = dict(case, opt=case["first"], tau=case.get("tau1", case["tau"]))
            r = batch.run_script(NAME, argv(first, data, out), out)
            verify(out, [r], f" (first {' '.join(case['first'])})", first)
            r = run(out)
            verify(out, [r], f" after {' '.join(case['first'])}")
        elif case["kind"] == "batches":
            out = fresh()
            nb = case["nb"]
            for b in range(nb):
                r = run(out, extra=["--batch_num", str(b), "--total_num_batches", str(nb)])
            verify(out, [r], f" in {nb} batches")
        elif case["kind"] == "orders":
            out = fresh()
            r = run(out)
            verify(out, [r], "")
            expect(r.ntasks <= 5, "too many slices for this case")
            for p in itertools.permutations(range(r.ntasks)):
                out = fresh()
                r = run(out, order=p)
                verify(out, [r], f" in order {p}")
        else:
            r0 = run(fresh())
            for c in batch.points(r0.log, case["tier"]):
                out = fresh()
                r = run(out, crash=c)
                expect(r.crashed, f"{what}: {r.writes} file operations, then {r0.writes}")
                if case["kind"] == "crash":
                    r = run(out)
                    expect(not r.crashed, what)
                    verify(out, [r], f" interrupted before file {c} ({r0.log[c]}) and run again")
                else:
                    for c2 in (x - c for x in batch.points(r0.log, case["tier"]) if x >= c):
                        o2 = fresh()
                        for f in os.listdir(out):
                            with open(os.path.join(out, f), "rb") as src, open(os.path.join(o2, f), "wb") as dst:
                                dst.write(src.read())
                        run(o2, crash=c2)
                        r = run(o2)
                        verify(o2, [r], f" interrupted before files {c} and {c2} and run again")
