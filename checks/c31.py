"""C31 - results do not depend on node names, contact order, time origin, time unit; reversing time swaps the directions."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from fsmc import ref
from fsmc.core import canon_array, dense, expect, expect_close
from checks import families as fam
from flowstab.flow_stability import FlowStability

PROPERTY = "C31"
RULE = ("every multiset of 1-2 contacts over 3 nodes and 4 times, every multiset of 3 contacts (one analysis setting each), every set of 2-3 instantaneous "
        "contacts and larger networks x settings (window, one or two time scales or the default, exact or linear matrices, integral grid); for each of "
        "them the complete analysis of every renaming and reordering of the nodes, every order of the contacts, every choice of "
        "swapped ends, shifted times, times in another unit (with the time scales) and reversed time is compared with the original "
        "one; a case is non-trivial when its covariances are new")
ASSUMPTIONS = ["times, shifts and units are binary fractions, so that transformed times are exact",
               "window bounds are event times (for other bounds the window snaps to the event time before, which reversal does not keep)",
               "contacts of one pair do not overlap"]
CHUNK = 4
T4 = [0, 1, 2.5, 4]
SETTINGS = [dict(ts=[2.0, 0.5], lin=None, win=None, grid=None), dict(ts=None, lin=None, win=None, grid=None),
            dict(ts=[1.0], lin=4, win=None, grid=None), dict(ts=[1.0], lin=None, win=(1, 3), grid=None),
            dict(ts=[4.0], lin=None, win=(0, 2), grid=None), dict(ts=[1.0], lin=None, win=(None, 2), grid=None),
            dict(ts=[1.0, 8.0], lin=None, win=None, grid=1), dict(ts=[0.25], lin=1, win=(1, None), grid=None)]


def cases(tier):
    for m in (1, 2):
        for ev in fam.event_sets(3, m):
            yield dict(ev=ev, settings=list(range(len(SETTINGS))))
    for ev in fam.tiny_events():
        yield dict(ev=ev, settings=list(range(len(SETTINGS))))
    for ev in fam.big_events():
        yield dict(ev=ev, raw=1, settings=list(range(len(SETTINGS))))
    one = [(a, b, t, t + 1) for a, b in ((0, 1), (0, 2), (1, 2)) for t in range(3)]
    for m in (2, 3):
        for ev in itertools.combinations(one, m):
            if len({e[2] for e in ev}) > 1:
                yield dict(ev=ev, settings=[0, 1, 2, 3], inst=1)
    for i, ev in enumerate(fam.event_sets(3, 3)):
        yield dict(ev=ev, settings=list(range(len(SETTINGS))) if tier == "thorough" else [i % len(SETTINGS)])
    if tier == "thorough":
        for i, ev in enumerate(fam.event_sets(4, 3)):
            if len({x for e in ev for x in e[:2]}) == 4:
                yield dict(ev=ev, settings=[i % len(SETTINGS), (i + 3) % len(SETTINGS)])


def analyse(ev, s, who, scale=1.0, times=None, inst=False):
    """{direction: [per time scale [covariance matrices]]} with rows and columns in the order of the original nodes.

    `who` maps the names in `ev` to the original nodes; `times` the window bounds and grid points of this network.
    """
    fs = FlowStability()
    fs.temporal_network = net = fam.inst_network([e[:3] for e in ev]) if inst else fam.network(ev)
    t0, t1, grid = times
    lab = net.node_to_label_dict
    order = sorted(range(net.num_nodes), key=lambda i: who[lab[i]])
    pick = np.ix_(order, order)
    if s["ts"] is None:
        # the default rate of a network
        out = {}
        for m, f, k in (("inter_T", net.compute_inter_transition_matrices, {}), ("inter_T_lin", net.compute_lin_inter_transition_matrices, dict(t_s=4))):
            if not hasattr(net, "laplacians"):
                net.compute_laplacian_matrices()
            f(**k)
            (lam, Ts), = getattr(net, m).items()
            out[m] = [dense(T)[pick] for T in (Ts[4] if k else Ts)]
            out["rate " + m] = [np.array([[lam * scale]])]
        return out
    if t0 is not None:
        fs.t_start = t0
    if t1 is not None:
        fs.t_stop = t1
    fs.time_scale = [t * scale for t in s["ts"]]
    fs.time_direction = 0 if grid is None else 1
    fs.compute_laplacian_matrices()
    fs.compute_inter_transition_matrices(**(dict(linear_approx=True, t_s=s["lin"]) if s["lin"] else {}))
    fs.set_flow_clustering(**({} if grid is None else dict(integral_time_grid=grid)))
    out = {}
    scales = list(fs.time_scale)
    for name, d in (("forward", fs.flow_clustering_forward), ("backward", fs.flow_clustering_backward)):
        if grid is None or name == "forward":
            out[name] = [[dense(x)[pick] for x in d[t].I_list] if d.get(t) is not None else None for t in scales]
    out["laplacians"] = [dense(L)[pick] for L in net.laplacians]
    out["static"] = dense(net.compute_static_adjacency_matrix())[pick] / scale
    return out


def compare(got, want, what, names):
    for n in want:
        a, b = got[names.get(n, n)], want[n]
        expect(type(a) is type(b) and np.shape(a) != () and len(a) == len(b), f"{what}: {names.get(n, n)} are {len(a)}, originally {n} {len(b)}")
        if n == "static":
            expect_close(a, b, f"{what}: static adjacency", tol=1e-9)
            continue
        for i, (x, y) in enumerate(zip(a, b)):
            expect((x is None) == (y is None), f"{what}: {n} {i}: {x} instead of {y}")
            if y is None:
                continue
            if n not in ("forward", "backward"):
                expect_close(x, y, f"{what}: {n} {i}", tol=1e-9)
            else:
                expect(len(x) == len(y), f"{what}: {n}: {len(x)} covariances instead of {len(y)}")
                for k, (u, v) in enumerate(zip(x, y)):
                    expect_close(u, v, f"{what}: {names.get(n, n)} covariance {k} of time scale {i} (original: {n})", tol=1e-9)


def variants(ev, big):
    """(name, contacts, who, shift, scale, reversed)"""
    n = max(max(e[:2]) for e in ev) + 1
    nodes = sorted({x for e in ev for x in e[:2]})
    same = {x: x for x in range(n)}
    perms = list(itertools.permutations(nodes)) if len(nodes) <= 3 else [tuple(nodes[k:] + nodes[:k]) for k in (1, 2)] + [tuple(nodes[::-1])]
    for p in perms[1:] if len(nodes) <= 3 else perms:
        m = dict(zip(nodes, p))
        yield f"nodes renamed {m}", [(m[s], m[t], a, b) for s, t, a, b in ev], {v: k for k, v in m.items()}, 0, 1, False
    words = dict(zip(nodes, ["b", "C", "a", "10", "9", "z", "", "é", "aa", "Z", "y", "x"]))
    yield f"nodes renamed {words}", [(words[s], words[t], a, b) for s, t, a, b in ev], {v: k for k, v in words.items()}, 0, 1, False
    orders = list(itertools.permutations(range(len(ev)))) if len(ev) <= 3 else [tuple(range(len(ev)))[::-1], tuple(range(1, len(ev))) + (0,)]
    for o in orders[1:] if len(ev) <= 3 else orders:
        yield f"contacts in order {o}", [ev[i] for i in o], same, 0, 1, False
    flips = itertools.product((0, 1), repeat=len(ev)) if len(ev) <= 3 else [[1] * len(ev), [i % 2 for i in range(len(ev))]]
    for f in flips:
        if any(f):
            yield f"ends swapped {tuple(f)}", [(t, s, a, b) if x else (s, t, a, b) for x, (s, t, a, b) in zip(f, ev)], same, 0, 1, False
    for sh in (2.0 ** 31, -8.5):
        yield f"shifted by {sh}", [(s, t, a + sh, b + sh) for s, t, a, b in ev], same, sh, 1, False
    for sc in (2.0 ** 31, 2.0 ** -30):
        yield f"times x{sc}", [(s, t, a * sc, b * sc) for s, t, a, b in ev], same, 0, sc, False
    yield "time reversed", [(s, t, -b, -a) for s, t, a, b in ev], same, 0, 1, True


def check(case, ctx):
    ev = [tuple(e) for e in case["ev"]]
    if not case.get("raw"):
        ev = [(s, t, T4[a], T4[b]) for s, t, a, b in ev]
    inst = bool(case.get("inst"))
    times = sorted({e[2] for e in ev}) if inst else ref.event_times(ev)
    same = {x: x for x in range(64)}
    for si in case["settings"]:
        s = SETTINGS[si]
        at = lambda k: None if k is None else times[min(k, len(times) - 1)]
        t0, t1 = (None, None) if s["win"] is None else (at(s["win"][0]), at(s["win"][1]))
        if t0 is not None and t1 is not None and t0 >= t1 or t0 == times[-1] or t1 == times[0]:
            continue
        grid = None
        if s["grid"]:
            if len(times) < 3:
                continue
            grid = [times[0], times[1], times[-1]]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            want = analyse(ev, s, same, times=(t0, t1, grid), inst=inst)
            for d in ("forward", "backward"):
                expect(None not in [l if l is None else 0 for l in want.get(d, [])], f"contacts {ev}, setting {s}: no {d} clustering")
            ctx.step()
            for name, ev2, who, sh, sc, rev in variants(ev, case.get("raw")):
                if inst and (rev or sc != 1):
                    continue                 # the last snapshot lasts one unit
                what = f"contacts {ev}, setting {s}, {name}"
                if rev:
                    if grid is not None:
                        continue
                    tr = (None if t1 is None else -t1, None if t0 is None else -t0, None)
                    names = {"forward": "backward", "backward": "forward"}
                else:
                    mv = lambda t: None if t is None else (t + sh) * sc
                    tr = (mv(t0), mv(t1), None if grid is None else [mv(t) for t in grid])
                    names = {}
                got = analyse(ev2, s, who, scale=sc, times=tr, inst=inst)
                if rev:
                    for k in ("laplacians", "inter_T", "inter_T_lin"):
                        got.get(k, []).reverse()
                compare(got, want, what, names)
                ctx.step()
                ctx.state(repr((ev2, si)))
                ctx.outcome(b"".join(canon_array(x) for l in want.get("forward", [want.get("inter_T")]) if l for x in l))
        ctx.trace()
