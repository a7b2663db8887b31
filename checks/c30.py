"""C30 - a file of a saved result is complete or not there, wherever the writing process dies."""
import builtins
import contextlib
import errno
import gzip
import io
import itertools
import os
import pickle
import sys

from fsmc.core import dense, expect
from checks import batch, c25, c26, c27
from checks import families as fam
from flowstab.temporal_network import ContTempNetwork

PROPERTY = "C30"
RULE = ("saves of networks, inter-event and cumulative matrices (exact, linear, plain, compressed, delta-encoded) over no file, "
        "an older file and a file of another object, and whole runs of the three scripts: the process is killed before every "
        "creation, renaming and removal of a file, before, in the middle and at the end of every write to one, and before every "
        "closing; for saves also a write error (disk full) in the middle of every write; then the file is read, the save or "
        "script run again, and everything read again; a case is non-trivial when the state of the directory after the kill is new")
ASSUMPTIONS = ["the process is killed, the operating system is not (what was written to a file before stays written)",
               "unfinished files that a killed process leaves have names ending in .tmp"]
CHUNK = 1
REAL_OPEN = io.open


class _World:
    root = None
    left = None          # file operations until the kill
    seen = 0
    run = 0
    fail = False         # a write error instead of a kill
    dead = False
    hit = None           # the operation of the kill or error
    log = ()


W = _World()


def _tick(what, fallible=False):
    if W.root is None:
        return
    if W.dead:
        raise batch.Crash(what)
    if W.fail and not fallible:
        return
    if W.left is not None:
        if W.left == 0:
            W.hit = what
            if W.fail:
                W.left = None
                raise OSError(errno.ENOSPC, "No space left on device")
            W.dead = True
            raise batch.Crash(what)
        W.left -= 1
    W.seen += 1
    W.log.append(what)


def _below(path):
    if isinstance(path, os.PathLike):
        path = os.fspath(path)
    return W.root is not None and isinstance(path, str) and os.path.abspath(path).startswith(W.root)


class Torn(io.FileIO):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.run = W.run

    def write(self, data):
        if self.run != W.run:
            return len(data)             # of a process that is dead: nothing of it writes any more
        data = memoryview(data).cast("B")
        name = os.path.basename(str(self.name))
        _tick("write " + name)
        half = len(data) // 2
        k = super().write(data[:half]) if half else 0
        _tick("mid-write " + name, True)
        while k < len(data):
            k += super().write(data[k:])
        return k

    def close(self):
        if not self.closed:
            try:
                if self.run == W.run:
                    _tick("close " + os.path.basename(str(self.name)))
            finally:
                super().close()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if any(c in mode for c in "wax+") and _below(file):
        raw = Torn(file, mode.replace("b", "").replace("t", ""), opener=opener)
        if "b" in mode:
            return raw
        return io.TextIOWrapper(raw, encoding=encoding, errors=errors, newline=newline, write_through=True)
    return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _hook(event, args):
    if W.root is None:
        return
    if event == "open":
        path, mode, flags = args
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
            (not isinstance(mode, str) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if not w:
            return
    elif event in ("os.rename", "os.remove", "os.link", "os.truncate"):
        path = args[0]
    else:
        return
    if _below(path):
        _tick(("create" if event == "open" else event) + " " + os.path.basename(os.fspath(path)))


_installed = []


@contextlib.contextmanager
def world(root, kill=None, fail=False):
    """File operations below root are counted, and the process dies (or a write fails) at the chosen one."""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    W.left, W.seen, W.fail, W.dead, W.hit, W.log = kill, 0, fail, False, None, []
    W.run += 1
    W.root = os.path.abspath(root) + os.sep
    builtins.open = io.open = _open
    try:
        yield
    finally:
        W.root = None
        W.dead = False
        W.run += 1
        builtins.open = io.open = REAL_OPEN


# ---------------------------------------------------------------- single saves

TARGETS = ("net", "inter", "inter_lin", "T", "T_lin")


def nets():
    t = fam.tiny_events()
    return [(t[1], t[2]), (t[7], t[4]), (fam.big_events()[0], t[7]), (t[5], fam.big_events()[1])]


def cases(tier):
    for i in range(len(nets())):
        for what in TARGETS:
            for comp in (False, True) if what != "net" else (False,):
                for ss in (False, True):
                    # (the storage that each encoding supports)
                    for delta in (not ss,) if what.startswith("inter") else (False,):
                        for before in ("nothing", "older", "other name"):
                            for fail in (False, True):
                                yield dict(kind="save", net=i, what=what, comp=comp, ss=ss, delta=delta, before=before, fail=fail)
    full = tier != "quick"
    for ev, g in c25.nets()[:5 if full else 2]:
        for k in (9, 1, 12) if not full else (0, 1, 2, 3, 5, 7, 8, 9, 10, 12, 13):
            sl = ["--num_slices", "2"] if k < 12 else ["--num_slices", "1"]
            yield dict(kind="torn", script=25, ev=ev, grid=g, sl=sl, opt=c25.OPTS[k], tau=["1", "2"] if full else ["1"])
    for ev, g in c26.nets()[:4 if full else 2]:
        for store in (0, 1) if not full else range(5):
            for x in ([], ["--save_intermediate"]):
                yield dict(kind="torn", script=26, ev=ev, grid=g, sl=["--num_slices", "2"] if not full else ["--num_slices", "4"],
                           tau=["1"], grid2=["--int_length", "1"], sel=[], mode=[], store=store, extra=x)
    for i in (1, 3) if not full else range(len(c27.nets())):
        for m in (0, 4) if not full else range(len(c27.MODES)):
            for x in ([], ["--save_clustering_before_nvarinf"]):
                yield dict(kind="torn", script=27, net=i, mode=c27.MODES[m], rep=3, seed=0, extra=x)


def _object(ev, ss, lam):
    net = fam.network(ev)
    net.compute_laplacian_matrices()
    net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
    net.compute_lin_inter_transition_matrices(lamda=lam, t_s=3.0, use_sparse_stoch=ss)
    net.compute_transition_matrices(lamda=lam, save_intermediate=False, tol=None)
    net.compute_lin_transition_matrices(lamda=lam, t_s=3.0, save_intermediate=False)
    return net


def _save(net, what, base, comp, delta, lam):
    if what == "net":
        net.save(base)
    elif what == "inter":
        net.save_inter_T(base, lamda=lam, compressed=comp, save_delta=delta, replace_existing=True)
    elif what == "inter_lin":
        net.save_inter_T_lin(base, lamda=lam, compressed=comp, save_delta=delta, replace_existing=True)
    elif what == "T":
        net.save_T(base, lamda=lam, compressed=comp)
    else:
        net.save_T_lin(base, lamda=lam, compressed=comp)


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if hasattr(x, "toarray") or hasattr(x, "to_full_mat"):
        return dense(x).round(9).tolist()
    if hasattr(x, "to_dict"):
        return _plain(x.to_dict())
    if hasattr(x, "tolist"):
        return _plain(x.tolist())
    return x


def _load(what, path):
    if what == "net":
        net = ContTempNetwork.load(path)
        return repr(_plain({k: v for k, v in net.__dict__.items() if k != "_compute_times" and not k.startswith("_overlap")}))
    z = ContTempNetwork.load_inter_T(path) if what.startswith("inter") else ContTempNetwork.load_T(path)
    return repr(_plain({k: v for k, v in z.items() if k != "_compute_times"}))


def _quiet():
    return contextlib.redirect_stdout(io.StringIO())


def save_case(case, ctx):
    new_ev, old_ev = nets()[case["net"]]
    what, comp, ss, delta = case["what"], case["comp"], case["ss"], case["delta"]
    new, old = _object(new_ev, ss, 0.5), _object(old_ev, ss, 0.5)
    label = f"{what} {'compressed ' if comp else ''}{'delta ' if delta else ''}of {new_ev} over {case['before']}"
    with batch.scratch() as d, _quiet():
        count = itertools.count()

        def fresh():
            out = os.path.join(d, f"d{next(count)}")
            os.mkdir(out)
            _save(old, "T", os.path.join(out, "bystander"), False, False, 0.5)
            if case["before"] == "older":
                _save(old, what, os.path.join(out, "result"), comp, delta, 0.5)
            elif case["before"] == "other name":
                _save(new, what, os.path.join(out, "result2"), comp, delta, 0.5)
            return out

        def content(out):
            r = {}
            for f in batch.finished(out):
                try:
                    r[f] = _load("T" if f.startswith("bystander") else what, os.path.join(out, f))
                except Exception as e:
                    r[f] = f"cannot be read: {type(e).__name__}: {e}"
            return r

        out = fresh()
        with world(out):
            _save(new, what, os.path.join(out, "result"), comp, delta, 0.5)
        expect(len(W.log) > 1, f"saving {label}: no file operation was seen")
        after = content(out)
        before = content(fresh())
        expect(not any(v.startswith("cannot") for v in after.values()), f"saving {label}: {after}")
        expect(len(after) >= 2 and any(f.startswith("result.") for f in after), f"saving {label}: files {sorted(after)}")
        expect(set(before) <= set(after), f"saving {label}: files {sorted(set(before) - set(after))} disappear")
        for k in itertools.count():
            out = fresh()
            died = None
            try:
                with world(out, k, case["fail"]):
                    _save(new, what, os.path.join(out, "result"), comp, delta, 0.5)
            except batch.Crash as e:
                died = e
            except OSError as e:
                died = e
            if W.hit is None:
                expect(k > 0 and died is None, f"saving {label}: {died}")
                break
            note = f"saving {label}, {'disk full' if case['fail'] else 'killed'} at {W.hit} (operation {k})"
            expect(died is not None, f"{note}: the save ends as if nothing had happened")
            got = content(out)
            for f in got:
                allowed = {x[f] for x in (before, after) if f in x}
                expect(got[f] in allowed, f"{note}: {f} is neither the old nor the new file: {got[f][:200]}")
            expect(set(before) <= set(got), f"{note}: files {sorted(set(before) - set(got))} are lost")
            if case["fail"]:
                expect(not [f for f in os.listdir(out) if f.endswith(".tmp")], f"{note}: leaves {os.listdir(out)}")
            ctx.state(repr((case, k)))
            ctx.outcome(repr((case["what"], sorted(got.items()))))
            _save(new, what, os.path.join(out, "result"), comp, delta, 0.5)
            expect(content(out) == after, f"{note}, then saved again: {content(out)} instead of {after}")
            ctx.trace()
            ctx.step(2)


# ---------------------------------------------------------------- scripts

def script_case(case, ctx):
    with batch.scratch() as d:
        data = os.path.join(d, "data")
        os.mkdir(data)
        kw = {}
        if case["script"] == 25:
            name = c25.NAME
            c25.save_net(case, data)
            args = lambda out: c25.argv(case, data, out)
            verify = lambda out, w: c25.compare(case, out, w, ctx)
        elif case["script"] == 26:
            name = c26.NAME
            slices = os.path.join(d, "slices")
            os.mkdir(slices)
            c25.save_net(case, data)
            batch.run_script(c25.NAME, c25.argv(dict(case, opt=c26.STORE[case["store"]]), data, slices), slices)
            # what killed runs of the step before have left
            for f in os.listdir(slices)[:3]:
                with open(os.path.join(slices, f), "rb") as src, open(os.path.join(slices, f".{f}.4711.tmp"), "wb") as dst:
                    dst.write(src.read()[:17])
            args = lambda out: c26.argv(case, slices, out)
            verify = lambda out, w: c26.compare(case, out, w, ctx)
        else:
            name = c27.NAME
            items = c27.setup(case, data)
            for f in list(items):
                with open(os.path.join(data, f), "rb") as src, open(os.path.join(data, f".{f}.4711.tmp"), "wb") as dst:
                    dst.write(src.read()[:17])
            args = lambda out: c27.argv(case, data, out)
            verify = lambda out, w: c27.compare(case, out, items, w, ctx)
        count = itertools.count()

        def run(out, kill=None):
            seeds = itertools.count(1000)
            with world(out, kill):
                return batch.run_script(name, args(out), out, urandom=lambda k: next(seeds).to_bytes(k, "big"))

        def fresh():
            out = os.path.join(d, f"out{next(count)}")
            os.mkdir(out)
            return out

        what = f"{name} {' '.join(str(a) for a in args('OUT')[4:])}"
        out = fresh()
        r = run(out)
        verify(out, what)
        expect(len(W.log) > 1, f"{what}: no file operation was seen")
        for k in itertools.count():
            out = fresh()
            r = run(out, k)
            if W.hit is None:
                break
            note = f"{what} killed at {W.hit} (operation {k})"
            expect(r.crashed, f"{note}: the run goes on")
            for f in batch.finished(out):
                try:
                    with (gzip.open if f.endswith(".gz") else open)(os.path.join(out, f), "rb") as fo:
                        pickle.load(fo)
                except Exception as e:
                    expect(False, f"{note}: leaves an unfinished {f}: {type(e).__name__}: {e}")
            ctx.state(repr((case, k)))
            r = run(out)
            try:
                verify(out, note + " and run again")
            except Exception as e:
                e.args = (f"{e}\n--- output of the script:\n{batch.errors(r.out)}",) + e.args[1:]
                raise
            ctx.trace()
            ctx.step()


def check(case, ctx):
    (save_case if case["kind"] == "save" else script_case)(case, ctx)
