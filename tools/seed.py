"""Planted bugs: python3 tools/seed.py make FILE.py   (write seeded/<id>/ from a list SEEDS of dicts)
                  python3 tools/seed.py try ID... [--tests] [--checks C03,C04]   (apply to /repo, build, demo, check, undo)
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "dirty /repo"


def undo():
    sh("git -C /repo checkout -- .")


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    clean()
    for s in ns["SEEDS"]:
        d = os.path.join(HERE, "seeded", s["id"])
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, "src/flowstab", f)
                t = open(p).read()
                n = t.count(old)
                assert n == s.get("count", 1), (s["id"], f, n, old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
            for f in {e[0] for e in s["edits"]}:
                orig = set(sh(f"git -C /repo show {root}:src/flowstab/{f}").stdout.splitlines())
                d1 = sh(f"git -C /repo diff -U0 -- src/flowstab/{f}").stdout
                for l in d1.splitlines():
                    if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                        print("  NOT ORIGINAL:", l)
                if not any(l.startswith("-") and not l.startswith("---") for l in d1.splitlines()):
                    print("  only adds lines:", f)
        finally:
            undo()
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the behaviour is right\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])


def stable_failures():
    sh("bash /opt/vp/test.sh /tmp/p/seedtest.json")
    passed = set(json.load(open("/tmp/p/seedtest.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]


def note(i, prop, out):
    """Remember which checks caught the bug (for DESIGN.md)."""
    p = os.path.join(HERE, "tools", "catches.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    e = d.setdefault(i, dict(property=prop, caught=[], missed=[]))
    for o in out:
        c = o.split(":")[0]
        if " CAUGHT " in o or " MISSED " in o:
            e["caught"] = sorted(set(e["caught"]) - {c} | ({c} if " CAUGHT " in o else set()))
            e["missed"] = sorted(set(e["missed"]) - {c} | ({c} if " MISSED " in o else set()))
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)


def try_(ids, tests, checks):
    clean()
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        a = sh(f"git -C /repo apply {d}/patch.diff")
        assert a.returncode == 0, a.stderr
        out = [f"{i} [{meta['property']}] demo clean={r0.returncode}"]
        if r0.returncode:
            out.append(r0.stderr[-500:])
        try:
            b = sh("bash /opt/vp/build.sh")
            out.append(f"build={b.returncode}")
            r = sh(f"bash {d}/demo.sh", cwd=REPO)
            out.append(f"demo patched={r.returncode}")
            if tests:
                out.append(f"stable failures={stable_failures()}")
            for c in checks or [meta["property"]]:
                t = time.time()
                k = sh(f"bash run.sh {c} quick", cwd=HERE)
                v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append(f"{c}: exit={k.returncode} {'CAUGHT' if v and k.returncode == 1 else 'MISSED'} {time.time() - t:.0f}s")
        finally:
            undo()
        print(" ".join(out), flush=True)
        note(i, meta["property"], out)
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        args = sys.argv[2:]
        checks = None
        if "--checks" in args:
            k = args.index("--checks")
            checks = args[k + 1].split(",")
            del args[k:k + 2]
        tests = "--tests" in args
        args = [a for a in args if not a.startswith("--")]
        if args == ["all"]:
            args = sorted(os.listdir(os.path.join(HERE, "seeded")))
        try_(args, tests, checks)
