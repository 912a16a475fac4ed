#!/usr/bin/env python3
"""Development aid: mkseed.py DEFS.py [id...] - each definition is verified (builds, stable tests pass, demo 0/non-zero) and stored
under /verif/seeded/<id>/, then the property's quick check is run on it.  DEFS.py: SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
--check-only [id...] just runs the checks on stored seeds."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
PY = "/opt/venv/bin/python"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def check(d, prop):
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        r = sh(f"cd {V} && VERIF_SEED=1 {PY} run.py {prop} --tier quick", timeout=1000)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        return r.returncode, v, r.stdout[-600:] + r.stderr[-600:]
    finally:
        clean()


def demo(d):
    e = {k: x for k, x in os.environ.items() if k != "PYTHONPATH"}
    return sh(f"cd /repo && timeout 300 bash {d}/demo.sh", env=e)


def main():
    if sh("git -C /repo status --short").stdout.strip():
        sys.exit("repo is dirty")
    a = sys.argv[1:]
    if a and a[0] == "--check-only":
        ids = a[1:] or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            d = f"{V}/seeded/{i}"
            p = json.load(open(d + "/meta.json"))["property"]
            rc, v, t = check(d, p)
            print(("caught" if rc == 1 and v else f"MISSED rc={rc}"), p, i, flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for s in ns["SEEDS"]:
        if a[1:] and s["id"] not in a[1:]:
            continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        clean()
        try:
            for f, old, new in s["edits"]:
                p = f"{R}/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print("BUILD FAILS", s["id"], b.stdout[-500:]); continue
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            bad = compare("/tmp/seed_out.json")
            if bad:
                print("TESTS FAIL", s["id"], bad[:5]); sh(f"rm -r {d}"); continue
            dm = demo(d)
        finally:
            clean()
        d0 = demo(d)
        if d0.returncode != 0 or dm.returncode == 0:
            print("DEMO BAD", s["id"], "clean:", d0.returncode, d0.stderr[-400:], d0.stdout[-200:], "patched:", dm.returncode)
            sh(f"rm -r {d}")
            continue
        rc, v, t = check(d, s["prop"])
        print(("caught" if rc == 1 and v else f"MISSED rc={rc}"), s["prop"], s["id"], v[:1], "" if v else t, flush=True)


def compare(out):
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open(out))
    ok = set(o.get("passed", []))
    st = b.get("stable") or b.get("passed") or b.get("stable_tests") or b.get("tests")
    return [x for x in st if x not in ok]


main()
