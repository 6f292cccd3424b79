#!/usr/bin/env python3
"""Development aid: make and verify planted bugs (never used by a check).

  seed.py make SPEC.py     SPEC defines: id, property, file(s) edits, needs, what_it_breaks, demo
  seed.py verify ID [...]  apply to /repo, run stable tests, demo on both trees and the check
"""
import json, os, shutil, subprocess, sys
V = "/verif"; R = f"/tmp/seedwt{os.getpid()}"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


DEMO_SH = """#!/bin/bash
. /opt/vp/env.sh
HERE="$(dirname "$(realpath "$0")")"
export PYTHONPATH="$PWD/ros_bt_py:$HERE:$PYTHONPATH"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 240 /opt/venv/bin/python "$HERE/demo.py"
"""


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        assert not sh(f"git -C {R} status --porcelain").stdout.strip()
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/ros_bt_py/ros_bt_py/{f}"
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    raise SystemExit(f"{s['id']}: {n} matches in {f}:\n{old}")
                open(p, "w").write(t.replace(old, new))
            diff = sh(f"git -C {R} diff").stdout
        finally:
            sh(f"git -C {R} checkout -- .")
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        for h in ("btstubs.py", "btdemo.py"):
            shutil.copy(f"{V}/tools/demo/{h}", d)
        verify(s["id"])


def verify(i, check=True):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    base = sh(f"bash {d}/demo.sh", cwd=R)
    res = {"demo_base": base.returncode}
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr); return
    try:
        res["unit"] = sh(f"bash /tmp/unit.sh {R} 1").stdout.strip()
        res["stable_missing"] = int("64 passed" not in res["unit"])
        m = sh(f"bash {d}/demo.sh", cwd=R)
        res["demo_mut"] = m.returncode
        res["demo_out"] = (m.stdout + m.stderr).strip().splitlines()[-1:]
        if check:
            c = sh(f"python3 check.py {meta['property']} --tier quick", cwd=V, timeout=900,
                   env=dict(os.environ, VERIF_REPO=R))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res["check"] = (c.returncode, sorted(set(v)))
            if c.returncode not in (0, 1):
                print(c.stdout[-500:], c.stderr[-1500:])
    finally:
        sh(f"git -C {R} checkout -- .")
    good = (res["demo_base"] == 0 and res["demo_mut"] not in (0,) and not res["stable_missing"]
            and (not check or (res["check"][0] == 1 and res["check"][1])))
    print("OK  " if good else "BAD ", i, res)
    if res["demo_base"]:
        print(base.stdout[-600:], base.stderr[-1200:])
    sys.stdout.flush()


if __name__ == "__main__":
    sh(f"cp -a {os.environ.get("SEED_BASE", "/repo")} {R}")
    import atexit
    atexit.register(lambda: shutil.rmtree(R))
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            make(s)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")):
            verify(i)
