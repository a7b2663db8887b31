"""C14 - saved transition matrices load back as the matrices that were saved."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam

PROPERTY = "C14"
RULE = ("family of networks (all pairs of contacts over 3 nodes, structured and larger ones) x windows x {inter-event, "
        "cumulative} x {exact, linear} x storage x compression x rounding {off, 1e-8, 0.05} x delta encoding x "
        "{one rate, all rates} x file name forms; and every sequence of up to 3 operations out of "
        "saves with different options, computations for other rates or windows, on one object, every file "
        "reloaded at the end; a case is non-trivial when the loaded matrices are new")
ASSUMPTIONS = ["saving inter-event matrices directly in csr storage or delta-encoded in sparse stochastic storage may be "
               "refused (documented); cumulative matrices are saved when only the final product is kept "
               "(documented)",
               "with delta encoding the rounding of successive differences may add up"]
CHUNK = 1
LAMS = [0.4, 2.0]
TS = [3.0, 10]


def _net(ev, win, ss):
    net = fam.network(ev)
    net.compute_laplacian_matrices(t_start=win[0], t_stop=win[1])
    for lam in LAMS:
        net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
        for ts in TS:
            net.compute_lin_inter_transition_matrices(lamda=lam, t_s=ts, use_sparse_stoch=ss)
        net.compute_transition_matrices(lamda=lam, save_intermediate=False, tol=None)
        for ts in TS:
            net.compute_lin_transition_matrices(lamda=lam, t_s=ts, save_intermediate=False)
    return net


def _snap(net):
    """Everything that can be saved, as plain dense data."""
    out = {}
    for name in ("inter_T", "inter_T_lin", "T", "T_lin"):
        out[name] = _plain(getattr(net, name, None))
    return out


def _plain(x):
    if x is None:
        return None
    if isinstance(x, dict):
        return {float(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [dense(m).copy() for m in x]
    return dense(x).copy()


def _compare(got, want, what, slack):
    """got/want: nested dict -> list -> array, as _plain."""
    if want is None:
        expect(got is None, f"{what}: exists unexpectedly")
    elif isinstance(want, dict):
        expect(isinstance(got, dict) and sorted(got) == sorted(want),
               f"{what}: keys {sorted(got) if isinstance(got, dict) else got} instead of {sorted(want)}")
        for k in want:
            _compare(got[k], want[k], f"{what}[{k}]", slack)
    elif isinstance(want, list):
        expect(isinstance(got, list) and len(got) == len(want), f"{what}: number of matrices "
               f"{len(got) if isinstance(got, list) else got} instead of {len(want)}")
        for i, (a, b) in enumerate(zip(got, want)):
            _compare(a, b, f"{what}[{i}]", slack * (i + 1))
    else:
        expect_close(got, want, what, tol=1e-12 + slack)


def _same(a, b, what):
    _compare(a, b, what, 0.0)


def _only_small_dropped(got, want, what, tol, first=False):
    """Without delta encoding (with it: in the first matrix) exactly the entries below the tolerance are dropped."""
    if isinstance(want, dict):
        for k in want:
            _only_small_dropped(got[k], want[k], f"{what}[{k}]", tol, first)
    elif isinstance(want, list):
        for i, (a, b) in list(enumerate(zip(got, want)))[:1 if first else None]:
            _only_small_dropped(a, b, f"{what}[{i}]", tol)
    else:
        same = np.abs(got - want) <= 1e-12
        small = (np.abs(want) <= tol * np.abs(want).max() * (1 + 1e-12)) & (got == 0)
        expect((same | small).all(), f"{what}: changed beyond the rounding tolerance {tol}\n{got}\nsaved:\n{want}")
        # (the largest entry of a sparse stochastic matrix may be the one of its non-trivial block)
        n = len(want)
        inner = [i for i in range(n) if want[i, i] != 1 or np.count_nonzero(want[i]) > 1 or np.count_nonzero(want[:, i]) > 1]
        top = np.abs(want[np.ix_(inner, inner)]).max() if inner else 0.0
        kept = (np.abs(want) < tol * top * (1 - 1e-9)) & (got != 0)
        expect(not kept.any(), f"{what}: entries below the rounding tolerance {tol} kept\n{got}\nsaved:\n{want}")


def _meta(d, ev, win, what):
    times = ref.event_times(ev)
    k0, k1 = ref.window(times, *win)
    expect(d["_k_start_laplacians"] == k0 and d["_k_stop_laplacians"] == k1
           and d["_t_start_laplacians"] == times[k0] and d["_t_stop_laplacians"] == times[k1],
           f"{what}: window of the file is "
           f"{[d[k] for k in ('_k_start_laplacians', '_k_stop_laplacians', '_t_start_laplacians', '_t_stop_laplacians')]}"
           f" instead of {[k0, k1, times[k0], times[k1]]}")
    expect(list(d["times_k_start_to_k_stop+1"]) == times[k0:k1 + 1],
           f"{what}: times {d['times_k_start_to_k_stop+1']} instead of {times[k0:k1 + 1]}")
    expect(d["num_nodes"] == len(ref.node_labels(ev)), f"{what}: num_nodes {d['num_nodes']}")


def _load(cls, path, kind):
    return cls.load_inter_T(path) if kind.startswith("inter") else cls.load_T(path)


def _save(net, kind, path, **kw):
    getattr(net, "save_" + kind)(path, **kw)


def _verify_file(net_cls, path, rec, what):
    """rec: kind, want (plain), tol, delta, ev, win."""
    d = _load(net_cls, path, rec["kind"])
    _meta(d, rec["ev"], rec["win"], what)
    for other in ("inter_T", "inter_T_lin", "T", "T_lin"):
        expect((other in d) == (other == rec["kind"]), f"{what}: contents {sorted(d)}")
    got = _plain(d[rec["kind"]])
    _compare(got, rec["want"], what, 2 * rec["tol"])
    _only_small_dropped(got, rec["want"], what, rec["tol"], first=rec["delta"])
    return got


def cases(tier):
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            for ss in (False, True):
                yield dict(kind="lattice", ev=ev, grid=g, ss=ss, wins=True)
    for ev in fam.big_events():
        for ss in (False, True):
            yield dict(kind="lattice", ev=ev, grid="raw", ss=ss, wins=False)
    n_tiny = len(fam.tiny_events())
    for i in ([1, 7] if tier == "quick" else range(n_tiny)):
        for ss in (False, True):
            for first in range(len(_ops(ss))):
                yield dict(kind="seq", ev=fam.tiny_events()[i], grid="int", ss=ss, first=first,
                           depth=3 if tier == "quick" else 4)
    for ev in fam.event_sets(3, 2):
        for ss in (False, True):
            yield dict(kind="lattice", ev=ev, grid="int", ss=ss, wins=False)


def _lattice(ss):
    for kind in ("inter_T", "inter_T_lin", "T", "T_lin"):
        for comp, (rz, tol), lam in itertools.product((False, True), ((False, 1e-8), (True, 1e-8), (True, 0.05), (True, 0.4)),
                                                      (None, LAMS[1])):
            yield kind, comp, rz, tol, lam, kind.startswith("inter") and not ss
        if kind.startswith("inter"):            # the less usual encoding for the storage: refused or right
            for (rz, tol), lam in itertools.product(((False, 1e-8), (True, 1e-8), (True, 0.05)), (None, LAMS[1])):
                yield kind, False, rz, tol, lam, ss


FORMS = [("plain", "plain"), ("dotted.name", "dotted.name"), ("full{e}", "full{e}"), ("half", "half{e}")]


def check(case, ctx):
    ev = fam.on_grid(case["ev"], case["grid"])
    tmp = tempfile.mkdtemp(dir=os.environ.get("FSMC_SCRATCH"))
    try:
        (_check_lattice if case["kind"] == "lattice" else _check_seq)(case, ev, tmp, ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check_lattice(case, ev, tmp, ctx):
    ss = case["ss"]
    times = ref.event_times(ev)
    wins = [(None, None)]
    if case["wins"]:
        wins += [(times[1], None), (times[0], times[1]), (times[1], times[1])]
    for win in wins:
        net = _net(ev, win, ss)
        before = _snap(net)
        for i, (kind, comp, rz, tol, lam, delta) in enumerate(_lattice(ss)):
            save_as, load_as = FORMS[i % 4] if case["wins"] else FORMS[0]
            e = ".gz" if comp else ".pickle"
            what = (f"events {ev} window {win} sparse_stoch={ss} save_{kind}(lamda={lam}, round_zeros={rz}, tol={tol},"
                    f" compressed={comp}, save_delta={delta}) as {save_as}")
            base = os.path.join(tmp, f"{wins.index(win)}_{i}_")
            kw = dict(lamda=lam, round_zeros=rz, tol=tol, compressed=comp)
            if rz and tol == 1e-8 and not comp:       # the defaults
                kw = dict(lamda=lam) if lam is not None else {}
            if kind.startswith("inter"):
                kw["save_delta"] = delta
            try:
                _save(net, kind, base + save_as.format(e=e), **kw)
            except AssertionError:
                expect(kind.startswith("inter") and delta == ss, f"{what}: refused")
                expect(not [f for f in os.listdir(tmp) if f.startswith(os.path.basename(base))], f"{what}: refused but left a file")
                _same(_snap(net), before, f"{what}: matrices in memory after a refused save")
                ctx.count("refused saves")
                continue
            _same(_snap(net), before, f"{what}: matrices in memory after saving")
            want = before[kind] if lam is None else {lam: before[kind][lam]}
            got = _verify_file(type(net), base + load_as.format(e=e),
                               dict(kind=kind, want=want, tol=tol if rz else 0.0, delta=delta, ev=ev, win=win), what)
            with open(base + (save_as + "{e}" if "{e}" not in save_as else save_as).format(e=e), "rb") as f:
                magic = f.read(2)
            expect((magic == b"\x1f\x8b") == comp, f"{what}: compressed file expected {comp}")
            ctx.step()
            ctx.trace()
            ctx.state(repr((case["ev"], case["grid"], win, ss, i)))
            for lamk, v in got.items():
                vs = [v] if not isinstance(v, dict) else list(v.values())
                for v1 in vs:
                    for m in (v1 if isinstance(v1, list) else [v1]):
                        ctx.outcome(canon_array(m))


def _ops(ss):
    d = dict(save_delta=not ss)
    return [("save", "inter_T", dict(tol=0.05, **d)), ("save", "inter_T", dict(round_zeros=False, lamda=LAMS[0], **d)),
            ("save", "inter_T_lin", dict(tol=0.05, **d)), ("save", "inter_T_lin", dict(round_zeros=False, **d)),
            ("save", "T", dict(tol=0.05)), ("save", "T_lin", dict(compressed=True, tol=0.05)),
            ("again", "inter_T", dict(round_zeros=False, **d)), ("replace", "inter_T", dict(round_zeros=False, **d)),
            ("again_lin", "inter_T_lin", dict(round_zeros=False, replace_existing=False, **d)),
            ("save", "inter_T_lin", dict(tol=0.05, save_delta=True)),
            ("rate", 1.0, None), ("window", None, None), ("T", None, None)]


def _check_seq(case, ev, tmp, ctx):
    ss = case["ss"]
    ops = _ops(ss)
    times = ref.event_times(ev)
    for n, seq in enumerate(itertools.chain.from_iterable(
            itertools.product(range(len(ops)), repeat=d) for d in range(case["depth"]))):
        seq = (case["first"],) + seq
        folder = os.path.join(tmp, str(n))
        os.mkdir(folder)
        net = _net(ev, (None, None), ss)
        win = (None, None)
        files = {}
        for pos, o in enumerate(seq):
            op, arg, kw = ops[o]
            what = f"events {ev} sparse_stoch={ss} operations {[ops[x] for x in seq[:pos + 1]]}"
            before = _snap(net)
            if op in ("save", "again", "replace", "again_lin"):
                lin = arg.endswith("lin")
                name = os.path.join(folder, f"f{pos}" if op == "save" else ("fixed_lin" if lin else "fixed"))
                kw = dict(kw)
                if op == "replace":
                    kw["replace_existing"] = True
                kept = op in ("again", "again_lin") and name in files
                if before[arg] is None:         # not computed for this window: documented refusal
                    try:
                        _save(net, arg, name, **kw)
                        expect(False, f"{what}: saved matrices that do not exist")
                    except AssertionError:
                        ctx.count("refused saves")
                        continue
                if kw.get("lamda") is not None and kw["lamda"] not in before[arg]:
                    continue
                _save(net, arg, name, **kw)
                _same(_snap(net), before, f"{what}: matrices in memory")
                if not kept:
                    want = before[arg] if kw.get("lamda") is None else {kw["lamda"]: before[arg][kw["lamda"]]}
                    files[name] = dict(kind=arg, want=want, tol=kw.get("tol", 0.0), delta=kw.get("save_delta", False),
                                       ev=ev, win=win)
            elif op == "rate":
                net.compute_inter_transition_matrices(lamda=arg, use_sparse_stoch=ss)
                net.compute_lin_inter_transition_matrices(lamda=arg, t_s=TS[0], use_sparse_stoch=ss)
            elif op == "window":
                win = (times[0], times[-2]) if win == (None, None) else (None, None)
                net.compute_laplacian_matrices(t_start=win[0], t_stop=win[1])
                net.compute_inter_transition_matrices(lamda=LAMS[0], use_sparse_stoch=ss)
                net.compute_lin_inter_transition_matrices(lamda=LAMS[0], t_s=TS[0], use_sparse_stoch=ss)
            elif op == "T":
                for lam in list(net.inter_T):
                    net.compute_transition_matrices(lamda=lam, save_intermediate=False, tol=None)
                    net.compute_lin_transition_matrices(lamda=lam, t_s=TS[0], save_intermediate=False)
            ctx.step()
        for name, rec in files.items():
            got = _verify_file(type(net), name, rec, f"events {ev} sparse_stoch={ss} operations "
                               f"{[ops[x] for x in seq]}: file {os.path.basename(name)}")
            ctx.outcome(repr((rec["kind"], sorted(got))))
        ctx.trace()
        ctx.state(repr((case["ev"], ss, seq)))
        shutil.rmtree(folder, ignore_errors=True)
