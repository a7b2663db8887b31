"""python -m fsmc.main <PROPERTY> [quick|thorough] | --replay FILE | --build"""
from __future__ import annotations

import contextlib
import fcntl
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def build():
    """Rebuild the extension modules from /repo's working tree (in place, git-ignored)."""
    lock = open(os.path.join(tempfile.gettempdir(), "fsmc_build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout
    finally:
        lock.close()


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def quiet_imports(prop):
    import logging
    import warnings
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module(f"checks.{prop.lower()}")
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    return mod


def write_replay(prop, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{v.get('index', 0)}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, **v), f, indent=1)
    return path


def report(prop, v):
    path = write_replay(prop, v)
    print(f"{prop}: {v['kind']} on case {json.dumps(v['case'])}")
    print(v["message"][:4000])
    print(f"re-run with: bash {HERE}/run.sh --replay {path}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def evidence(prop, tier, mod, merged, t0, violations, exhaustive):
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=len(merged["states"]), transitions=merged["transitions"],
            traces_validated_against_impl=merged["traces"],
            evaluations=merged["executed"],
            distinct_nontrivial=len(merged["outcomes"]),
            rule=mod.RULE, samples=merged["samples"][:8],
            exhaustive=bool(exhaustive),
            known_findings_hit=merged["known"],
            counters=merged["extra"]),
        assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
        violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    return ev


def run(prop, tier):
    from fsmc import core
    t0 = time.time()
    empty = dict(states=set(), outcomes=set(), transitions=0, traces=0, executed=0,
                 samples=[], known={}, extra={})
    ok, log = build()
    stub = type("M", (), dict(RULE="the tree did not build or import", ASSUMPTIONS=[], PROPERTY=prop))
    if not ok:
        evidence(prop, tier, stub, empty, t0, 1, False)
        report(prop, dict(kind="build", case=None, message=log[-3000:], index=0))
        return 1
    known = load_known()
    nw = int(os.environ.get("FSMC_WORKERS", "0") or 0) or min(8, os.cpu_count() or 1)
    counter = mp.Value("q", 0)
    progress = mp.Array("q", 2 * nw, lock=False)
    scratch = tempfile.mkdtemp(prefix=f"fsmc_{prop}_")
    os.environ["FSMC_SCRATCH"] = scratch
    deadline = t0 + core.PROPERTY_TIME_BUDGET[tier]
    pids = {}
    sys.stdout.flush()
    for s in range(nw):
        progress[2 * s] = -1
        progress[2 * s + 1] = int(time.time())
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                # imported here and not before the fork: the OpenMP runtime of
                # MKL pins forked children of an initialised process to one core
                try:
                    mod = quiet_imports(prop)
                except BaseException:
                    import traceback
                    with open(os.path.join(scratch, f"import{s}"), "w") as f:
                        f.write(traceback.format_exc())
                    os._exit(96)
                core.worker(mod, tier, counter, progress, s,
                            os.path.join(scratch, f"r{s}.json"), known, deadline)
            except BaseException:
                import traceback
                with open(os.path.join(scratch, f"crash{s}"), "w") as f:
                    f.write(traceback.format_exc())
            os._exit(97)
        pids[pid] = s
    dead = []
    case_to = 600
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, s in list(pids.items()):
                if progress[2 * s] >= 0 and now - progress[2 * s + 1] > case_to + 60:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.05)
            continue
        if pid not in pids:
            continue
        s = pids.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if status != 0:
            dead.append((s, status, progress[2 * s]))
    merged = dict(empty)
    viols = []
    imp = [os.path.join(scratch, f"import{s}") for s in range(nw)]
    imp = [open(f).read() for f in imp if os.path.exists(f)]
    if imp:
        shutil.rmtree(scratch, ignore_errors=True)
        evidence(prop, tier, stub, empty, t0, 1, False)
        report(prop, dict(kind="import", case=None, message=imp[0], index=0))
        return 1
    mod = stub
    exhausted = not dead
    for s in range(nw):
        rp = os.path.join(scratch, f"r{s}.json")
        if not os.path.exists(rp):
            continue
        with open(rp) as f:
            r = json.load(f)
        merged["states"].update(r["states"])
        merged["outcomes"].update(r["outcomes"])
        merged["transitions"] += r["transitions"]
        merged["traces"] += r["traces"]
        merged["executed"] += r["executed"]
        merged["samples"] += r["samples"]
        for k, v in r["known"].items():
            merged["known"][k] = merged["known"].get(k, 0) + v
        for k, v in r["extra"].items():
            merged["extra"][k] = merged["extra"].get(k, 0) + v
        viols += r["violations"]
        mod.RULE, mod.ASSUMPTIONS = r["rule"], r["assumptions"]
        exhausted &= r["exhausted"]
    for s, status, idx in dead:
        case = None
        if idx >= 0:
            for i, c in enumerate(quiet_imports(prop).cases(tier)):
                if i == idx:
                    case = c
                    break
        msg = f"worker ended with status {status} (signal {os.WTERMSIG(status) if os.WIFSIGNALED(status) else None})"
        cp = os.path.join(scratch, f"crash{s}")
        if os.path.exists(cp):
            msg += "\n" + open(cp).read()
        viols.append(dict(case=case, index=max(idx, 0), kind="crash", message=msg, sig=None))
    shutil.rmtree(scratch, ignore_errors=True)
    viols.sort(key=lambda v: v["index"])
    ev = evidence(prop, tier, mod, merged, t0, len(viols), exhausted and not viols)
    for f in known:
        if f.get("status") == "known" and f.get("property") == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']} (met {merged['known'].get(f['id'], 0)} times)")
    c = ev["coverage"]
    print(f"{prop} [{tier}] cases={merged['executed']} states={c['states']} "
          f"transitions={c['transitions']} traces={c['traces_validated_against_impl']} "
          f"distinct_outcomes={c['distinct_nontrivial']} exhaustive={c['exhaustive']} "
          f"counters={merged['extra']} wall={ev['wall_s']}s")
    if viols:
        report(prop, viols[0])
        return 1
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    ok, log = build()
    if not ok:
        print(log)
        return 1
    from fsmc import core
    mod = quiet_imports(v["property"])
    os.environ["FSMC_SCRATCH"] = tempfile.mkdtemp(prefix="fsmc_replay_")
    try:
        rs = [core.run_case(mod, v["case"], core.Ctx()) for _ in range(2)]
    finally:
        shutil.rmtree(os.environ["FSMC_SCRATCH"], ignore_errors=True)
    if rs[0] is None:
        print("the case passes")
        return 0
    print(rs[0][0], rs[0][1])
    print("reproduced twice" if rs[1] is not None else "NOT reproduced the second time")
    print(f"VIOLATION property={v['property']} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        ok, log = build()
        print(log[-2000:])
        return 0 if ok else 1
    if a[0] == "--replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main())
