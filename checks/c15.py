"""C15 - a saved network resumes as the original."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

PROPERTY = "C15"
RULE = ("networks (labelled, unsorted, with gaps, extra attributes, merged, instantaneous, from tables) x every "
        "sequence of up to 2 computing operations (3 for one network) after which the network is saved and loaded "
        "x every continuation of 1 operation (with repeated saving), original and loaded network compared completely; x every "
        "selection of one matrix kind at saving or loading; every ordered pair of file names with and without extension; a case is non-trivial when its sequence is new")
ASSUMPTIONS = ["continued computations rely only on matrices that were selected for saving (or recompute them)",
               "a file is loaded under the name it was saved under"]
CHUNK = 1
MATS = ["laplacians", "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin"]
OPS = [("lap", {}), ("lapw", dict(save_adjacencies=True)),
       ("inter", dict(lamda=0.5)), ("inter", dict(lamda=0.5, use_sparse_stoch=True)),
       ("inter", dict(lamda=0.5, fix_tau_k=True)), ("inter", dict()),
       ("lin", dict(lamda=0.5, t_s=2.5)), ("lin", dict(lamda=0.5, t_s=2.5, use_sparse_stoch=False)),
       ("T", dict(lamda=0.5)), ("T", dict(lamda=0.5, save_intermediate=False, reverse_time=True)),
       ("Tlin", dict(lamda=0.5, t_s=2.5)), ("delta", dict())]


def _nets(names=None):
    lab = [("b", "a", 0, 2), ("c", "a", 1, 4), ("b", "c", 0, 1)]
    out = {}
    out["int"] = lambda: fam.network([(0, 1, 0, 2), (1, 2, 1, 4)])
    out["labels"] = lambda: fam.network(lab)
    out["gap"] = lambda: fam.network([(7, 3, 0.5, 1.25), (3, 7, 2.0, 3.5), (5, 3, 2.0, 3.0)])
    out["extra"] = lambda: fam.network([(1, 0, 1, 2), (2, 0, 0, 1), (2, 1, 2, 4)],
                                       extra_attrs={"weight": [2.0, 3.0, 1.0], "kind": ["x", "y", "z"]})
    out["merged"] = lambda: fam.network([(0, 1, 0, 2), (0, 1, 1, 4), (1, 2, 1, 2)], merge_overlapping_events=True)
    out["norelabel"] = lambda: fam.network([(0, 1, 0, 2), (2, 3, 1, 4), (1, 2, 2, 4)], relabel_nodes=False,
                                           node_to_label_dict={0: "p", 1: "q", 2: "r", 3: "s"})
    out["table"] = lambda: ContTempNetwork(events_table=fam.network(lab).events_table.assign(
        source_nodes=["u", "v", "w"], target_nodes=["v", "w", "x"]))
    out["inst"] = lambda: fam.inst_network([("a", "b", 0), ("b", "c", 1), ("a", "c", 1), ("a", "b", 5)])
    out["tri"] = lambda: fam.network(fam.on_grid(fam.tiny_events()[5], "float"))
    out["ring"] = lambda: fam.network(fam.big_events()[0])
    return out


def _apply(net, op):
    """Outcome of the operation ('ok' or the name of the exception)."""
    name, kw = op
    inst = isinstance(net, ContTempInstNetwork)
    kw = dict(kw)
    if inst and kw.pop("fix_tau_k", None):
        pass
    try:
        if name == "lap":
            net.compute_laplacian_matrices(**kw)
        elif name == "lapw":
            ts = sorted(set(net.events_table.starting_times) | set(net.events_table.ending_times))
            if inst:
                kw.pop("save_adjacencies", None)
            net.compute_laplacian_matrices(t_start=ts[1], t_stop=ts[-1], **kw)
        elif name == "inter":
            net.compute_inter_transition_matrices(**kw)
        elif name == "lin":
            net.compute_lin_inter_transition_matrices(**kw)
        elif name == "T":
            net.compute_transition_matrices(**kw)
        elif name == "Tlin":
            net.compute_lin_transition_matrices(**kw)
        elif name == "delta":
            if hasattr(net, "_compute_delta_trans_mat"):
                net._compute_delta_trans_mat(0.5)
        return "ok"
    except Exception as e:
        return type(e).__name__


def _view(net):
    v = {}
    for m in MATS:
        v[m] = _plain(getattr(net, m, None))
    et = net.events_table
    v["events"] = [tuple(r) for r in et.itertuples()]
    v["columns"] = list(et.columns)
    for a in ("node_to_label_dict", "num_nodes", "num_events", "start_time", "end_time", "is_directed",
              "_t_start_laplacians", "_t_stop_laplacians", "_k_start_laplacians", "_k_stop_laplacians"):
        v[a] = getattr(net, a, None)
    v["nodes"] = list(net.node_array)
    v["times"] = list(net.times) if hasattr(net, "times") else None
    v["merged"] = getattr(net, "_overlapping_events_merged", None)
    v["inst"] = net.instantaneous_events
    v["class"] = type(net).__name__
    return v


def _plain(x):
    if x is None:
        return None
    if isinstance(x, dict):
        return {float(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(m) for m in x]
    return (type(x).__name__, dense(x).copy())


def _same(a, b, what):
    if isinstance(b, dict):
        expect(isinstance(a, dict) and set(a) == set(b), f"{what}: {a if not isinstance(a, dict) else sorted(map(str, a))}"
               f" instead of {sorted(map(str, b))}")
        for k in b:
            _same(a[k], b[k], f"{what}.{k}")
    elif isinstance(b, list):
        expect(isinstance(a, list) and len(a) == len(b), f"{what}: {a} instead of {b}")
        for i, (x, y) in enumerate(zip(a, b)):
            _same(x, y, f"{what}[{i}]")
    elif isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], np.ndarray):
        expect(isinstance(a, tuple) and a[0] == b[0], f"{what}: {a} instead of {b}")
        expect_close(a[1], b[1], what, tol=1e-12)
    else:
        expect(a == b, f"{what}: {a!r} instead of {b!r}")


def cases(tier):
    names = list(_nets())
    for n in names:
        yield dict(kind="select", net=n)
    for first in NAMES:
        yield dict(kind="names", first=first)
    for n in names:
        for first in [None] + list(range(len(OPS))):
            yield dict(kind="resume", net=n, first=first, depth=1)
    for n in names if tier == "thorough" else ["extra"]:
        for first in range(len(OPS)):
            for second in range(len(OPS)):
                yield dict(kind="resume", net=n, first=first, second=second, depth=1)


NAMES = ["net", "net.1", "net.2", "net.pickle.1", "0.5", "0.75", "d.x/net", "d.x/net.1", "net.gz"]


def check(case, ctx):
    tmp = tempfile.mkdtemp(dir=os.environ.get("FSMC_SCRATCH"))
    try:
        {"select": _select, "resume": _resume, "names": _names}[case["kind"]](case, tmp, ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _names(case, tmp, ctx):
    """Two networks saved under different names are both there afterwards, in either order of loading."""
    os.mkdir(os.path.join(tmp, "d.x"))
    nets = [_nets()["int"](), _nets()["labels"]()]
    for net in nets:
        net.compute_laplacian_matrices()
    views = [_view(n) for n in nets]
    for second in NAMES:
        if second == case["first"]:
            continue
        for se, le in itertools.product(("", ".pickle"), repeat=2):
            two = [os.path.join(tmp, n) for n in (case["first"], second)]
            for net, path in zip(nets, two):
                net.save(path + se)
                ctx.step()
            for i in (0, 1):
                _same(_view(ContTempNetwork.load(two[i] + le)), views[i],
                      f"networks saved as {case['first'] + se!r} and {second + se!r}: number {i + 1} loaded with extension {le!r}")
                ctx.step()
            ctx.trace()
            ctx.state(repr((case["first"], second, se, le)))
            ctx.outcome(repr((case["first"], second)))
            for f in os.listdir(tmp):
                if os.path.isfile(os.path.join(tmp, f)):
                    os.remove(os.path.join(tmp, f))


def _resume(case, tmp, ctx):
    make = _nets()[case["net"]]
    pre = [] if case["first"] is None else [case["first"]]
    if case.get("second") is not None:
        pre.append(case["second"])
    seqs = [tuple(pre)] + ([tuple(pre) + (o,) for o in range(len(OPS))] if pre else [])
    for seq in seqs:
        net = make()
        for o in seq:
            _apply(net, OPS[o])
        what = f"network {case['net']} after {[OPS[o] for o in seq]}"
        before = _view(net)
        forms = [("net", "net"), ("net.pickle", "net"), ("net", "net.pickle")]
        sv, ld = forms[len(seq) % 3]
        net.save(os.path.join(tmp, sv))
        _same(_view(net), before, f"{what}: original after saving")
        loaded = type(net).load(os.path.join(tmp, ld))
        _same(_view(loaded), before, f"{what}: loaded network")
        # saved a second time from the loaded network
        loaded.save(os.path.join(tmp, "again"))
        loaded2 = type(net).load(os.path.join(tmp, "again"))
        _same(_view(loaded2), before, f"{what}: network loaded, saved and loaded")
        ctx.step(2)
        for j, op in enumerate(OPS):
            a, b = copy.deepcopy(net), copy.deepcopy(loaded if j % 2 else loaded2)
            ra, rb = _apply(a, op), _apply(b, op)
            expect(ra == rb, f"{what}: continuing with {op} gives {rb} on the loaded and {ra} on the original network")
            _same(_view(b), _view(a), f"{what}: continued with {op}")
            ctx.step()
            ctx.trace()
            ctx.state(repr((case["net"], seq, j)))
            ctx.outcome(repr((case["net"], ra, [m for m in MATS if hasattr(a, m)])))


def _select(case, tmp, ctx):
    make = _nets()[case["net"]]
    for ss in (False, True):
        net = make()
        for o in (("lapw", dict(save_adjacencies=True)), ("inter", dict(lamda=0.5, use_sparse_stoch=ss)),
                  ("lin", dict(lamda=0.5, t_s=2.5, use_sparse_stoch=ss)), ("T", dict(lamda=0.5)),
                  ("Tlin", dict(lamda=0.5, t_s=2.5))):
            r = _apply(net, o)
            expect(r == "ok", f"network {case['net']}: {o} raised {r}")
        full = _view(net)
        have = [m for m in MATS if full[m] is not None]
        sels = [[m] for m in have] + [[], have, ["laplacians", "inter_T"]]
        for sel, at in itertools.product(sels, ("save", "load")):
            path = os.path.join(tmp, "sel")
            net.save(path, matrices_list=sel if at == "save" else None)
            loaded = type(net).load(path, matrices_list=sel if at == "load" else None)
            what = f"network {case['net']} selection {sel} at {at}"
            want = {k: (v if k not in MATS or k in sel else None) for k, v in full.items()}
            _same(_view(loaded), want, what)
            # restart from the contacts
            fresh = make()
            for o in (("lap", {}), ("inter", dict(lamda=2.0, use_sparse_stoch=ss)), ("T", dict(lamda=2.0))):
                expect(_apply(loaded, o) == "ok" and _apply(fresh, o) == "ok", f"{what}: {o} failed")
            for m in ("laplacians", "inter_T", "T"):
                _same(_plain(getattr(loaded, m)), _plain(getattr(fresh, m)), f"{what}: recomputed {m}")
            ctx.step()
            ctx.trace()
            ctx.state(repr((case["net"], ss, sel, at)))
            ctx.outcome(repr((case["net"], sel)))
