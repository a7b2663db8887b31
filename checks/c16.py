"""C16 - ingestion is independent of the input form; merging yields unions."""
import copy
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam
from flowstab.temporal_network import ContTempNetwork

PROPERTY = "C16"
RULE = ("every sequence (ordered) of 1-2 oriented contacts over 3 nodes and every multiset of 3 contacts over 3 nodes in every row order "
        "x label alphabets (ints, sparse ints, negative, strings, floats) x input forms (lists, tuples, arrays, DataFrame, "
        "DataFrame with other, named or repeated index or a column of that name, CSV as str and Path, CSV with separator) x relabelling; every sequence of 2-3 (4 in the "
        "thorough tier) contacts incl. overlapping, nested, identical and zero-duration ones of both orientations with merging; a case is "
        "non-trivial when its Laplacians or merged table are new")
ASSUMPTIONS = ["overlapping contacts of one pair only with merging requested",
               "node labels are of one sortable type; CSV labels are those pandas reads",
               "without relabelling the labels are 0..n-1"]
CHUNK = 4
LABELS = {"ints": [0, 1, 2, 3], "sparse": [12, 3, 100, 7], "neg": [-2, 5, 0, -9], "str": ["m", "z", "a", "k"],
          "float": [2.5, -1.5, 0.25, 9.75], "strnum": ["10", "9", "1", "2"], "mixedcase": ["b", "A", "c", "B"]}
COLS = ["source_nodes", "target_nodes", "starting_times", "ending_times"]


def cases(tier):
    # ordered sequences of up to two oriented contacts: all input forms
    for ev in fam.event_sets(3, 1, oriented=True):
        yield dict(kind="forms", ev=ev, grid="int", labels=list(LABELS), all_forms=True)
    for ev in fam.tiny_events():
        for g in ("int", "float"):
            yield dict(kind="forms", ev=ev, grid=g, labels=list(LABELS), all_forms=True)
    for ev in fam.event_sets(3, 2, combos=False):
        yield dict(kind="forms", ev=ev, grid="int", labels=["sparse", "str"], all_forms=False)
    # overlapping contacts of one pair and a second pair, merged
    c1 = [(0, 1, a, b) for a, b in fam.IV4]
    c1r = [(1, 0, a, b) for a, b in fam.IV4]
    c2 = [(1, 2, a, b) for a, b in fam.IV4]
    for m in (1, 2):
        for evs in itertools.product(c1 + c1r + c2, repeat=m):
            yield dict(kind="merge", evs=[[list(e) for e in evs]])
    zero = [(s, t, a, a) for s, t in ((0, 1), (1, 0), (1, 2)) for a in range(4)]
    for z in zero:
        for x in c1 + c1r + c2:
            yield dict(kind="merge", evs=[[list(e) for e in evs] for evs in ((z, x), (x, z), *((z, x, y) for y in c1[1::2]))])
    for first in c1:
        for second in c1 + c1r:
            yield dict(kind="merge", evs=[[list(e) for e in (first, second, third)] for third in c1 + c1r + c2])
            if tier == "thorough":
                for third in c1 + c1r:
                    yield dict(kind="merge", evs=[[list(e) for e in (first, second, third, x)]
                                                  for x in c1 + c1r + c2])
            else:
                yield dict(kind="merge", evs=[[list(e) for e in (first, second, third, x)]
                                              for third in c1r[:2] for x in c1[1:4]])
    # unsorted tables of three contacts: every row order
    for ev in fam.event_sets(3, 3):
        yield dict(kind="perm", ev=ev)


def check(case, ctx):
    tmp = tempfile.mkdtemp(dir=os.environ.get("FSMC_SCRATCH"))
    try:
        {"forms": _forms, "merge": _merge, "perm": _perm}[case["kind"]](case, tmp, ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _table_events(net, labels_of):
    et = net.events_table
    return [(labels_of(s), labels_of(t), b, e) for s, t, b, e in
            zip(et.source_nodes, et.target_nodes, et.starting_times, et.ending_times)]


def _common(net, ev, what, relabelled=True, mapping=None):
    """The network holds exactly the contacts ev (labels in the user's alphabet)."""
    labels = ref.node_labels(ev)
    n2l = dict(enumerate(labels)) if relabelled else (mapping or {})
    if relabelled:
        expect(net.node_to_label_dict == n2l, f"{what}: node_to_label_dict {net.node_to_label_dict} instead of {n2l}")
        expect(net.label_to_node_dict == {l: i for i, l in n2l.items()},
               f"{what}: label_to_node_dict {net.label_to_node_dict}")
        back = n2l.get
    else:
        if mapping is not None:
            expect(net.node_to_label_dict == mapping, f"{what}: given node_to_label_dict not kept")
        back = lambda x: x
    got = _table_events(net, back)
    expect(sorted(got, key=repr) == sorted([tuple(e) for e in ev], key=repr),
           f"{what}: contacts {got} instead of {ev}")
    expect(list(net.events_table.durations) == [e - b for b, e in zip(net.events_table.starting_times,
                                                                      net.events_table.ending_times)],
           f"{what}: durations {list(net.events_table.durations)}")
    expect(net.num_nodes == len(labels) and net.num_events == len(ev), f"{what}: {net.num_nodes} nodes, {net.num_events} events")
    expect(list(net.node_array) == list(range(len(labels))), f"{what}: node_array {net.node_array}")
    expect(net.start_time == min(e[2] for e in ev) and net.end_time == max(e[3] for e in ev),
           f"{what}: times {net.start_time}..{net.end_time}")


def _laps(net, ev, what, ctx):
    net.compute_laplacian_matrices()
    want = ref.laplacians(ev)
    expect(len(net.laplacians) == len(want), f"{what}: {len(net.laplacians)} Laplacians instead of {len(want)}")
    for k, (L, W) in enumerate(zip(net.laplacians, want)):
        expect_close(L, W, f"{what}: Laplacian {k}")
    ctx.outcome(b"".join(canon_array(W) for W in want))
    ctx.trace()
    ctx.step(len(want))


def _frame(ev, **kw):
    return pd.DataFrame({c: [e[i] for e in ev] for i, c in enumerate(COLS)}, **kw)


def _forms(case, tmp, ctx):
    base = fam.on_grid(case["ev"], case["grid"])
    for name in case["labels"]:
        al = LABELS[name]
        ev = [(al[s], al[t], b, e) for s, t, b, e in base]
        cols = [[e[i] for e in ev] for i in range(4)]
        attrs = {"tag": [f"x{i}" for i in range(len(ev))], "w": [0.5 + i for i in range(len(ev))]}
        forms = ["lists", "frame", "csv"]
        if case["all_forms"]:
            forms += ["tuples", "arrays", "extra", "noreset", "frame_index", "csv_path", "csv_sep", "frame_extra",
                      "frame_named", "frame_column", "frame_repeated", "frame_columns_order", "extra_index"]
        if sorted({x for e in base for x in e[:2]}) == list(range(len({x for e in base for x in e[:2]}))) and name == "ints":
            forms += ["norelabel", "frame_norelabel"]
        for form in forms:
            if form.startswith("csv") and name == "strnum":
                continue
            what = f"contacts {ev} as {form}"
            given = copy.deepcopy(cols)
            df = None
            if form in ("lists", "extra", "extra_index", "noreset", "norelabel"):
                kw = {}
                if form == "extra":
                    kw = dict(extra_attrs=copy.deepcopy(attrs))
                elif form == "extra_index":
                    kw = dict(extra_attrs={"index": list(range(len(ev)))[::-1], "id": [0] * len(ev), "times": attrs["w"]})
                elif form == "noreset":
                    kw = dict(reset_event_table_index=False)
                elif form == "norelabel":
                    kw = dict(relabel_nodes=False, node_to_label_dict={i: f"n{i}" for i in range(4)})
                net = ContTempNetwork(source_nodes=given[0], target_nodes=given[1], starting_times=given[2],
                                      ending_times=given[3], **kw)
                expect(given == cols, f"{what}: the given lists were modified: {given}")
                if form == "extra":
                    expect(kw["extra_attrs"] == attrs, f"{what}: extra_attrs modified")
            elif form == "tuples":
                net = ContTempNetwork(**{c: tuple(x) for c, x in zip(COLS, given)})
            elif form == "arrays":
                arrs = [np.array(x) for x in given]
                net = ContTempNetwork(**dict(zip(COLS, arrs)))
                expect(all(a.tolist() == x for a, x in zip(arrs, given)), f"{what}: the given arrays were modified")
            elif form.startswith("frame"):
                df = _frame(ev, index=range(10, 10 + len(ev))[::-1] if form == "frame_index" else None)
                if form == "frame_named":                # as read with index_col
                    df.index = pd.Index(range(5, 5 + len(ev)), name="event")
                elif form == "frame_column":             # as left by reset_index() after sorting
                    df["index"] = list(range(1, len(ev))) + [0]
                elif form == "frame_repeated":           # as left by concat
                    df.index = [i % 2 for i in range(len(ev))]
                elif form == "frame_columns_order":
                    df = df[df.columns[::-1]]
                if form == "frame_extra":
                    df["tag"] = attrs["tag"]
                    df["w"] = attrs["w"]
                keep = df.copy(deep=True)
                kw = dict(relabel_nodes=False, node_to_label_dict={i: f"n{i}" for i in range(4)}) \
                    if form == "frame_norelabel" else {}
                net = ContTempNetwork(events_table=df, **kw)
                expect(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index),
                       f"{what}: the given table was modified:\n{df}")
            else:
                path = os.path.join(tmp, "ev.csv")
                kw = dict(sep=";") if form == "csv_sep" else {}
                _frame(ev).to_csv(path, index=False, **kw)
                with open(path, "rb") as f:
                    raw = f.read()
                net = ContTempNetwork(events_table=Path(path) if form == "csv_path" else path, **kw)
                with open(path, "rb") as f:
                    expect(f.read() == raw, f"{what}: the file was modified")
            _common(net, ev, what, relabelled="norelabel" not in form,
                    mapping={i: f"n{i}" for i in range(4)} if "norelabel" in form else None)
            if form in ("extra", "frame_extra"):
                rows = [(net.node_to_label_dict[r.source_nodes], net.node_to_label_dict[r.target_nodes],
                         r.starting_times, r.ending_times, r.tag, r.w) for r in net.events_table.itertuples()]
                want = [e + (attrs["tag"][i], attrs["w"][i]) for i, e in enumerate(ev)]
                expect(sorted(rows, key=repr) == sorted(want, key=repr), f"{what}: attributes {rows} instead of {want}")
            if form in ("lists", "tuples", "arrays", "extra"):
                expect(list(net.events_table.index) == list(range(len(ev))), f"{what}: table index {list(net.events_table.index)}")
            elif form == "noreset":
                got = dict(zip(net.events_table.index, _table_events(net, net.node_to_label_dict.get)))
                expect(got == dict(enumerate(ev)), f"{what}: contacts by row number {got}")
            _laps(net, ev, what, ctx)
            if df is not None:
                expect(df.equals(keep), f"{what}: the given table was modified by the computation")
            ctx.state(repr((case["ev"], case["grid"], name, form)))


def _perm(case, tmp, ctx):
    base = fam.on_grid(case["ev"], "int")
    al = LABELS["neg"]
    ev0 = [(al[s], al[t], b, e) for s, t, b, e in base]
    for p in sorted(set(itertools.permutations(range(len(ev0))))):
        ev = [ev0[i] for i in p]
        net = ContTempNetwork(events_table=_frame(ev))
        what = f"table rows {ev}"
        _common(net, ev, what)
        _laps(net, ev, what, ctx)
        ctx.state(repr((case["ev"], p)))
    net = fam.network(ev0)
    _laps(net, ev0, f"contacts {ev0}", ctx)


def _union(ivs):
    """Union of intervals as a sorted list of maximal intervals."""
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def _merge(case, tmp, ctx):
    for ev in case["evs"]:
        base = fam.on_grid(ev, "int")
        al = LABELS["str"]
        evl = [(al[s], al[t], b, e) for s, t, b, e in base]
        for form in ("lists", "frame", "frame_repeated"):
            what = f"contacts {evl} merged, as {form}"
            if form == "lists":
                net = fam.network(evl, merge_overlapping_events=True)
            else:
                df = _frame(evl)
                if form == "frame_repeated":
                    df.index = [i % 2 for i in range(len(evl))]
                keep = df.copy(deep=True)
                net = ContTempNetwork(events_table=df, merge_overlapping_events=True)
                expect(df.equals(keep) and list(df.columns) == list(keep.columns), f"{what}: the given table was modified")
            raw = fam.network(evl) if form == "lists" else ContTempNetwork(events_table=_frame(evl))
            _common(raw, evl, what.replace("merged", "not merged"))
            if hasattr(raw, "_merge_overlapping_events"):      # merged later instead of at construction
                raw._merge_overlapping_events()
                expect(raw.events_table[COLS].reset_index(drop=True).equals(net.events_table[COLS].reset_index(drop=True)),
                       f"{what}: merging later gives {_table_events(raw, net.node_to_label_dict.get)}")
                _laps(raw, _table_events(net, net.node_to_label_dict.get), what + " later", ctx)
            got = _table_events(net, net.node_to_label_dict.get)
            pairs = {frozenset(e[:2]) for e in evl}
            expect({frozenset(e[:2]) for e in got} == pairs, f"{what}: pairs of {got}")
            for p in pairs:
                want = _union([e[2:] for e in evl if frozenset(e[:2]) == p])
                mine = [e[2:] for e in got if frozenset(e[:2]) == p]
                expect(_union(mine) == want, f"{what}: {sorted(p)} in contact {mine}, union is {want}")
            expect(not ref.overlapping_same_pair(got), f"{what}: contacts still overlap: {got}")
            _common(net, got, what)
            merged_ref = [(*sorted(p), a, b) for p in pairs for a, b in _union([e[2:] for e in evl if frozenset(e[:2]) == p])]
            # event times where a contact touches another one may or may not remain
            _laps(net, got, what, ctx)
            times = ref.event_times(got)
            labels = ref.node_labels(got)
            for k in range(len(times) - 1):
                expect_close(net.laplacians[k], ref.rw_laplacian(ref.active_adjacency(merged_ref, labels, times[k], times[k + 1])),
                             f"{what}: Laplacian {k}")
            ctx.state(repr((ev, form)))
