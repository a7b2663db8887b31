"""C26 - run_cov_integrals: integrals between grid points, from saved slices."""
import itertools
import os
import pickle
import shutil

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import batch, c25
from checks import families as fam

PROPERTY = "C26"
RULE = ("slices of several networks (some empty) saved by run_laplacians_transmats x grids (length, number of points, explicit "
        "list) x selections (all pairs, from start/finish, single intervals, directions) x exact/linear matrices x tolerances; "
        "every order of the starting points over the workers (up to 4 points); a crash before every file operation followed "
        "by a rerun, with and without intermediate results; a case is non-trivial when the integrals of its files are new")
ASSUMPTIONS = ["a crash happens between two operations on files (inside one: C30)",
               "waiting times with at most 4 significant digits (the file name format)"]
CHUNK = 1
NAME = "run_cov_integrals"

SEL = [[], ["--time_direction", "forward"], ["--time_direction", "backward"], ["--only_from_start_and_finish"],
       ["--only_from_start"], ["--only_from_finish"], ["--only_one_interval"],
       ["--only_one_interval", "--time_direction", "backward"],
       ["--only_from_start_and_finish", "--time_direction", "backward"]]
KIND = [["--only_expm_transmats"], ["--only_lin_transmats"], []]


def nets():
    t = fam.tiny_events()
    return [(t[1], "int"), (t[2], "int"), (t[7], "int"), (t[4], "half"), (fam.big_events()[0], "raw")]


def grids(nsl):
    return [["--int_length", "1"], ["--int_length", "2"], ["--int_length", "3"], ["--num_points", "2"], ["--num_points", str(nsl)],
            ["--int_list", "0", str(nsl)], ["--int_list", "0", "1", "3"], ["--int_list", "1", "2", "4"]]


def cases(tier):
    for i, (ev, g) in enumerate(nets()):
        net = dict(tier=tier, ev=ev, grid=g, sl=["--num_slices", "4"], tau=["1", "0.25"])
        for k, gr in enumerate(grids(4)):
            for s in SEL if k < 2 or tier == "thorough" else SEL[:1]:
                yield dict(net, kind="grid", grid2=gr, sel=s, mode=KIND[2], store=k % 4)
        for store in range(5):
            for m in KIND:
                yield dict(net, kind="grid", grid2=["--int_length", "1"], sel=[], mode=m, store=store)
        for extra in (["--save_intermediate"], ["--tol", "1e-3"], ["--integral_rtol", "1e-6"], ["--verbose", "--print_interval", "1"]):
            yield dict(net, kind="grid", grid2=["--int_length", "1"], sel=[], mode=[], store=0, extra=extra)
        yield dict(net, kind="grid", sl=["--slice_length", "0.5"], grid2=["--int_length", "2"], sel=[], mode=[], store=0)
    for name, beside in [(n, "nn") for n in c25.NAMES] + [("nn", n) for n in c25.NAMES] + [("nn_b", "nn_c"), ("zz", "aa")]:
        yield dict(tier=tier, ev=nets()[1][0], grid="int", sl=["--num_slices", "4"], tau=["1", "0.25"], kind="grid",
                   grid2=["--int_length", "2"], sel=[], mode=KIND[2], store=3, name=name, beside=beside)
    for j, (ev, g) in enumerate(nets()[:4]):
        net = dict(tier=tier, ev=ev, grid=g, sl=["--num_slices", "4"], tau=["2"])
        yield dict(net, kind="orders", grid2=["--int_list", "0", "2", "4"], sel=[], mode=[], store=0)
        yield dict(net, kind="orders", grid2=["--int_length", "2"], sel=[], mode=KIND[0], store=0, extra=["--save_intermediate"])
        for m in KIND[:2]:
            for s in ([], ["--only_from_start_and_finish"]):
                for x in ([], ["--save_intermediate"]):
                    if s or tier == "thorough" or j % 2 == 0:
                        yield dict(net, kind="crash", grid2=["--int_length", "1"], sel=s, mode=m, store=j % 4, extra=x)
        for m in KIND:
            yield dict(net, kind="crash", grid2=["--int_length", "1"], sel=["--only_from_start_and_finish"], mode=m, store=4,
                       extra=[] if j % 2 else ["--save_intermediate"])
        yield dict(net, kind="crash", grid2=["--int_length", "1"], sel=["--only_from_start_and_finish"], mode=KIND[2], store=j % 4,
                   extra=["--save_intermediate"] if j % 2 else [])
    for ev, g in nets()[:2]:
        net = dict(tier=tier, ev=ev, grid=g, sl=["--num_slices", "4"], tau=["2"])
        yield dict(net, kind="crash2", grid2=["--int_length", "2"], sel=[], mode=KIND[0], store=0, extra=["--save_intermediate"])
        yield dict(net, kind="crash2", grid2=["--int_length", "1"], sel=["--only_from_finish"], mode=KIND[1], store=0)
        for a, b in itertools.permutations((["0", "1", "2"], ["0", "1", "2", "3", "4"], ["0", "2", "4"], ["0", "4"], ["0", "3", "4"]), 2):
            for m in KIND if (len(b) == 5 or tier == "thorough") else KIND[:1]:
                if set(a) <= set(b):
                    yield dict(net, kind="extend", grid2=["--int_list"] + a, then=["--int_list"] + b, sel=[], mode=m, store=0)
        for s in SEL[1:]:
            for m in KIND[:2] if tier == "quick" else KIND:
                yield dict(net, kind="extend", grid2=["--int_length", "1"], then=["--int_length", "1"], sel=s, sel2=[], mode=m, store=4)
                yield dict(net, kind="extend", grid2=["--int_length", "1"], then=["--int_length", "1"], sel=s, sel2=[], mode=m, store=0)
        for m, m2 in itertools.permutations(KIND, 2):
            if m2 == []:
                yield dict(net, kind="extend", grid2=["--int_length", "1"], then=["--int_length", "1"], sel=[], mode=m, mode2=m2, store=0)


STORE = [["--save_inter_T", "--save_slice_trans"],
         ["--save_inter_T", "--save_slice_trans", "--compress_inter_T", "--compress_slice_trans"],
         ["--save_inter_T", "--save_slice_trans", "--save_delta_inter_T", "--not_use_sparse_stoch"],
         ["--save_inter_T", "--save_slice_trans", "--force_csr", "--save_static_adjacencies"],
         ["--save_inter_T"]]


def grid_points(args, nsl):
    if "--int_list" in args:
        return [int(a) for a in args[1:]]
    step = int(args[1]) if args[0] == "--int_length" else nsl // int(args[1])
    return list(range(0, nsl + 1, step))


def pairs(case, pts):
    sel = case["sel"]
    m = len(pts)
    d = c25.opt(sel, "--time_direction", "both")
    fw = [(i, j) for i in range(m) for j in range(i + 1, m)] if d != "backward" else []
    bw = [(i, j) for i in range(m) for j in range(i)] if d != "forward" else []
    if "--only_from_start_and_finish" in sel:
        fw = [(i, j) for i, j in fw if i == 0]
        bw = [(i, j) for i, j in bw if i == m - 1]
    if "--only_from_start" in sel:
        fw, bw = [(0, j) for j in range(1, m)], []
    if "--only_from_finish" in sel:
        fw, bw = [], [(m - 1, j) for j in range(m - 1)]
    if "--only_one_interval" in sel:
        fw = [(i, j) for i, j in fw if j == i + 1]
        bw = [(i, j) for i, j in bw if j == i - 1]
    return [(pts[i], pts[j]) for i, j in fw + bw]


def expected(case):
    ev = c25.events(case)
    times = ref.event_times(ev)
    b = c25.bounds(case, times)
    As = ref.adjacencies(ev)
    tau = np.diff(times)
    n = len(ref.node_labels(ev))
    nn = case.get("name", "nn")
    ks = [ref.window(times, x, None)[0] for x in b]
    out = {}
    for tw in case["tau"]:
        lam = 1 / float(tw)
        for lin in (False, True):
            if case["mode"] == KIND[0 if lin else 1]:
                continue
            Ts = [ref.lin_approx(A, lam * t, 10) if lin else ref.expm_rw(ref.rw_laplacian(A), lam * t)
                  for A, t in zip(As, tau)]
            for a, z in pairs(case, grid_points(case["grid2"], len(b) - 1)):
                k0, k1 = sorted((ks[a], ks[z]))
                if k0 == k1:
                    continue                            # no time in between: nothing is saved
                T = times[k1] - times[k0]
                S = ref.flow_integrals(Ts[k0:k1], times[k0:k1 + 1], reverse=a > z)[-1]
                out[f"{nn}_tau_w{float(tw):.3e}_PT_{'lin_' if lin else ''}{a:06d}_to_{z:06d}.pickle"] = ((S * n * n + 1) * T, T)
    return out


def compare(case, d, what, ctx):
    want = expected(case)
    names = {f for f in batch.finished(d) if "temp_integration" not in f}
    if "--save_intermediate" not in case.get("extra", ()):
        expect(len(names) == len(batch.finished(d)), f"{what}: intermediate results were saved")
    expect(names == set(want), f"{what}: files {sorted(names - set(want))} too many, {sorted(set(want) - names)} missing")
    x = case.get("extra", [])
    slack = 1e-6 + 50 * float(c25.opt(x, "--tol", 0)) + 20 * float(c25.opt(x, "--integral_rtol", 0))
    for f, (M, T) in want.items():
        with open(os.path.join(d, f), "rb") as fo:
            z = pickle.load(fo)
        got = dense(z["ITPT"])
        expect(abs(z["integration_time"] - T) < 1e-9, f"{what}: {f}: integration time {z['integration_time']} instead of {T}")
        expect_close(got, np.triu(M), f"{what}: {f}", tol=slack)
        ctx.outcome(canon_array(got, 5))
        ctx.step()


def argv(case, slices, out):
    a = ["--datadir", slices, "--savedir", out, "--net_name", case.get("name", "nn"), "--ncpu", "2"]
    return a + case["grid2"] + case["sel"] + case["mode"] + case.get("extra", [])


def check(case, ctx):
    with batch.scratch() as d:
        data, slices = os.path.join(d, "data"), os.path.join(d, "slices")
        os.mkdir(data)
        os.mkdir(slices)
        c25.save_net(case, data)
        r = batch.run_script(c25.NAME, c25.argv(dict(case, opt=STORE[case["store"]]), data, slices), slices)
        expect(len(os.listdir(slices)) > 0, f"no slices: {batch.errors(r.out)}")
        if "beside" in case:                            # the slices of another network in the same directory
            other = dict(ev=fam.big_events()[0], grid="raw", sl=["--num_slices", "6"], tau=["3", "0.25"], name=case["beside"])
            os.mkdir(data + "2")
            c25.save_net(other, data + "2")
            batch.run_script(c25.NAME, c25.argv(dict(other, opt=STORE[3]), data + "2", slices), slices)
        count = itertools.count()

        def fresh(src=None):
            out = os.path.join(d, f"out{next(count)}")
            if src is None:
                os.mkdir(out)
            else:
                shutil.copytree(src, out)
            return out

        def run(out, **kw):
            ctx.trace()
            return batch.run_script(NAME, argv(case, slices, out), out, **kw)

        what = (f"{NAME} {' '.join(case['grid2'] + case['sel'] + case['mode'] + case.get('extra', []))} on slices "
                f"{' '.join(case['sl'] + STORE[case['store']])} tau {case['tau']} name {case.get('name')} "
                f"beside {case.get('beside')} of events {c25.events(case)}")

        def verify(out, r, note, c=case):
            try:
                compare(c, out, what + note, ctx)
            except Exception as e:
                e.args = (f"{e}\n--- output of the script:\n{batch.errors(r.out)}",) + e.args[1:]
                raise
            ctx.state(repr((case, note)))

        if case["kind"] == "grid":
            out = fresh()
            verify(out, run(out), "")
            verify(out, run(out), " (run twice)")
        elif case["kind"] == "extend":
            out = fresh()
            verify(out, run(out), "")
            c2 = dict(case, grid2=case["then"], sel=case.get("sel2", case["sel"]), mode=case.get("mode2", case["mode"]))
            ctx.trace()
            r = batch.run_script(NAME, argv(c2, slices, out), out)
            verify(out, r, f" then with {' '.join(c2['grid2'] + c2['sel'] + c2['mode'])}", c2)
        elif case["kind"] == "orders":
            out = fresh()
            r = run(out)
            verify(out, r, "")
            expect(r.ntasks <= 4, "too many starting points for this case")
            for p in itertools.permutations(range(r.ntasks)):
                out = fresh()
                verify(out, run(out, order=p), f" in order {p}")
        else:
            r0 = run(fresh())
            for c in batch.points(r0.log, case.get("tier")):
                out = fresh()
                r = run(out, crash=c)
                expect(r.crashed, f"{what}: {r.writes} file operations, then {r0.writes}")
                if case["kind"] == "crash":
                    verify(out, run(out), f" interrupted before file {c} ({r0.log[c]}) and run again")
                else:
                    for c2 in (x - c for x in batch.points(r0.log, case.get("tier")) if x >= c):
                        o2 = fresh(out)
                        run(o2, crash=c2)
                        verify(o2, run(o2), f" interrupted before files {c} and {c2} and run again")
                        shutil.rmtree(o2)
                shutil.rmtree(out)
