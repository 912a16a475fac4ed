#!/opt/venv/bin/python
"""Run one property check:  run.py C05 [--tier quick|thorough]   (or --replay FILE, --replay-batch)"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PROJ_NETWORK", "OFF")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if "/repo/src" not in sys.path:
    sys.path.insert(0, "/repo/src")

import logging  # noqa

logging.disable(logging.CRITICAL)
import warnings  # noqa

warnings.simplefilter("ignore")


AFTER = " (after another run)"
AFTER_PATHS = {"quick": 4, "thorough": 40}
AFTER_S = {"quick": 20, "thorough": 300}


def load(prop):
    import symx  # noqa

    return importlib.import_module(f"checks.{prop}")


def cases_of(mod, tier):
    return mod.cases(tier)


def _worker(job):
    prop, tier, seed, idx, after = job
    import contextlib
    import io
    from symx import harness

    mod = load(prop)
    case = cases_of(mod, tier)[idx]
    opts = dict(seed=seed, budget_s=240 if tier == "quick" else 2400)
    opts.update(case.get("opts", {}))
    with contextlib.redirect_stdout(io.StringIO()):
        if after:
            opts.update(max_paths=AFTER_PATHS[tier], budget_s=AFTER_S[tier])
            rep = harness.explore_after(case["body"], case.get("params", {}), opts)
            if rep is None:
                return None
        else:
            rep = harness.explore(case["body"], case.get("params", {}), opts)
    rep["case"] = case["name"] + (AFTER if after else "")
    rep["idx"] = idx
    return rep


def _loop(conn):
    """worker process: one case after the other; a watchdog hands over what is known when the solver does not come back"""
    import threading

    job = [None]
    lock = threading.Lock()

    def send(x):
        with lock:
            if job[0] is not None:
                job[0] = None
                conn.send(x)

    def watch():
        from symx import core, harness

        while True:
            time.sleep(1)
            r, j = core.RUNNING, job[0]
            if r is None or j is None or time.time() - r[0] < 2 * r[1] + 10:
                continue
            if time.time() - r[0] < 2 * r[1] + 20:
                core.z3.main_ctx().interrupt()
                continue
            try:
                rep = harness.partial()
                rep["case"], rep["idx"] = cases_of(load(j[0]), j[1])[j[3]]["name"] + (AFTER if j[4] else ""), j[3]
                send(("ok", rep))
            except Exception as e:  # noqa
                send(("err", f"solver stuck ({e})"))
            os._exit(3)

    threading.Thread(target=watch, daemon=True).start()
    while True:
        try:
            j = conn.recv()
        except EOFError:
            return
        if j is None:
            return
        job[0] = j
        try:
            r = ("ok", _worker(j))
        except BaseException as e:  # noqa
            r = ("err", f"{type(e).__name__}: {e}")
        send(r)


def run_jobs(jobs, n, deadline):
    """-> [(job, "ok", report) | (job, "err", text)]"""
    from multiprocessing.connection import wait

    ctx = mp.get_context("spawn")
    todo, out, live = list(reversed(jobs)), [], {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_loop, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None]
        feed(a)

    def feed(a):
        j = todo.pop() if todo else None
        live[a][1] = j
        try:
            a.send(j)
        except OSError:
            pass
        if j is None:
            live.pop(a)
            a.close()

    for _ in range(n):
        start()
    while live:
        left = deadline - time.time()
        if left <= 0:
            break
        for a in wait(list(live), timeout=min(left, 5)):
            p, j = live[a]
            try:
                kind, r = a.recv()
                out.append((j, kind, r))
                if p.is_alive() and not (kind == "ok" and r and r["incomplete"] == "solver stuck") and not (kind == "err" and "stuck" in r):
                    feed(a)
                    continue
            except EOFError:
                out.append((j, "err", "worker died"))
            live.pop(a)
            a.close()
            if todo:
                start()
    for a, (p, j) in live.items():
        out.append((j, "err", "time limit of the run"))
        p.kill()
    out += [(j, "err", "time limit of the run, not started") for j in todo]
    return out


def replay_items(prop, tier, items):
    """Concrete replays in a separate, unpatched interpreter."""
    import subprocess

    if not items:
        return []
    p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), prop, "--tier", tier, "--replay-batch"],
                       input=json.dumps(items), capture_output=True, text=True, timeout=600)
    lines = [ln for ln in p.stdout.splitlines() if ln.startswith("@@")]
    if len(lines) != 1:
        raise RuntimeError("replay process failed: " + p.stdout[-500:] + p.stderr[-3000:])
    return json.loads(lines[0][2:])


def do_replay_batch(prop, tier):
    import contextlib
    import io

    items = json.loads(sys.stdin.read())
    mod = load(prop)
    from symx import harness

    cs = cases_of(mod, tier)
    out = []
    for it in items:
        c = cs[it["idx"]]
        with contextlib.redirect_stdout(io.StringIO()):
            out.append(harness.run_concrete(c["body"], it["inputs"], c.get("params", {}), it.get("before")))
    print("@@" + json.dumps(out))


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-6 + 1e-6 * max(abs(a), abs(b))
    return a == b


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--replay-batch", action="store_true")
    ap.add_argument("--case", help="only cases whose name contains this")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when anything was inconclusive")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay_batch:
        return do_replay_batch(a.prop, tier)
    if a.replay:
        it = json.load(open(a.replay))
        r = replay_items(a.prop, it.get("tier", tier), [it])[0]
        print(json.dumps(r, indent=1))
        return 1 if r["failures"] else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = load(a.prop)
    cs = cases_of(mod, tier)
    idxs = [i for i, c in enumerate(cs) if not a.case or a.case in c["name"]]
    jobs = [(a.prop, tier, seed, i, False) for i in idxs]
    if getattr(mod, "AFTER", True):
        jobs += [(a.prop, tier, seed, i, True) for i in idxs if cs[i].get("after", True)]
    n = min(int(os.environ.get("VERIF_JOBS", "8")), len(jobs)) or 1
    reps = []
    errors = []
    limit = 560 if tier == "quick" else 7200
    for j, kind, r in run_jobs(jobs, n, t0 + limit):
        if kind == "ok":
            if r is not None:
                reps.append(r)
        else:
            errors.append(f"case {cs[j[3]]['name'] + (AFTER if j[4] else '')}: {r}")
    reps.sort(key=lambda r: r["idx"])

    # replay: every path witness (encoding validation), every counterexample candidate
    items = []
    for r in reps:
        tr = r["traces"]
        cap = mod.MAX_TRACES if hasattr(mod, "MAX_TRACES") else 400
        for t in tr[:cap]:
            items.append({"idx": r["idx"], "inputs": t["inputs"], "kind": "trace", "t": t, "r": r, "before": r.get("before")})
        for v in r["violations"]:
            for cand in v["cands"] or []:
                items.append({"idx": r["idx"], "inputs": cand, "kind": "cex", "v": v, "r": r, "before": r.get("before")})
    try:
        res = replay_items(a.prop, tier, [{k: i[k] for k in ("idx", "inputs", "before")} for i in items])
    except Exception as e:
        errors.append(str(e))
        res = []
    agreed = disagreed = 0
    confirmed = []  # (case, label, inputs, failures)
    cex_ok = {}
    samples = []
    herr = []
    for it, rr in zip(items, res):
        name = cs[it["idx"]]["name"]
        if rr["status"] == "harness-error":
            herr.append(f"{name}: {rr['tb'][-800:]}")
            continue
        if rr["failures"]:
            confirmed.append((name, it["idx"], rr["failures"], it["inputs"], it["before"]))
        if it["kind"] == "trace" and it["t"]["ended"] == "probe":
            continue
        if it["kind"] == "trace":
            ok = rr["status"] == "ok" and not rr["failures"] and all(
                close(v, rr["obs"].get(k)) for k, v in it["t"]["obs"].items() if k in rr["obs"])
            agreed += ok
            disagreed += not ok
            if a.v and not ok:
                print("  trace disagreement", name, it["inputs"], it["t"]["obs"], rr)
            if ok and len(samples) < 4 and it["t"]["obs"]:
                samples.append({"case": name, "inputs": it["inputs"], "symbolic": it["t"]["obs"], "real_code": rr["obs"]})
        else:
            key = (it["idx"], it["v"]["label"])
            cex_ok[key] = cex_ok.get(key, False) or bool(rr["failures"])
    kf = [k for k in known_findings() if k["property"] == a.prop and k.get("status") == "known"]
    new, known_hit = [], set()
    for name, idx, fails, inp, before in confirmed:
        rest = []
        for f in fails:
            hit = next((k for k in kf if k["case"] == name and all(s in f for s in k["match"])
                        and _within(inp, k.get("inputs"))), None)
            if hit:
                known_hit.add(hit["id"])
            else:
                rest.append(f)
        if rest:
            new.append((name, idx, rest, inp, before))
    for key, okk in cex_ok.items():
        if not okk:
            errors.append(f"counterexample not reproduced on the real code: {cs[key[0]]['name']}: {key[1]}")
    for r in reps:
        for u in sorted(set(r["unknown"]))[:8]:
            errors.append(f"inconclusive in {r['case']}: {u}")
        for h in r["harness_errors"][:2]:
            errors.append(f"harness error in {r['case']}: {h}")
        if r["incomplete"]:
            errors.append(f"{r['case']}: exploration incomplete ({r['incomplete']})")
        if r["reach"] == 0 and "before" not in r:
            errors.append(f"{r['case']}: vacuous - no claim reached on any feasible path")
    errors += herr[:3]
    for k in sorted(kf, key=lambda k: k["id"]):
        if k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    tot = lambda f: sum(f(r) for r in reps)
    funcs = sorted(set(x for r in reps for x in r["functions"]))
    cov = {
        "states": tot(lambda r: r["paths"]), "transitions": tot(lambda r: r["decisions"]),
        "traces_validated_against_impl": agreed, "traces_not_in_agreement": disagreed,
        "samples": samples or [{"case": r["case"], "inputs": (r["traces"] or [{"inputs": {}}])[0]["inputs"]} for r in reps[:2]],
        "meaning": "state = feasible symbolic path end; transition = branch decision resolved by the solver",
        "harnesses": [{"name": r["case"], "paths": r["paths"], "symbolic_inputs": r["input_vars"], "claims": r["claims"],
                       "claims_discharged": r["discharged"], "wall_s": round(r["wall"], 2)} for r in reps],
        "claims": tot(lambda r: r["claims"]), "claims_discharged": tot(lambda r: r["discharged"]),
        "solver_queries": tot(lambda r: r["solver"]["queries"]), "solver_unsat": tot(lambda r: r["solver"]["unsat"]),
        "solver_sat": tot(lambda r: r["solver"]["sat"]), "solver_unknown": tot(lambda r: r["solver"]["unknown"]),
        "solver_time_s": round(tot(lambda r: r["solver"]["time"]), 2),
        "branches_with_unknown_feasibility": tot(lambda r: r["unknown_branches"]),
        "functions_encoded": funcs, "bounds": getattr(mod, "BOUNDS", ""),
        "outside_the_claim": getattr(mod, "OUTSIDE", ""),
        "source_sha256": _src_hash(funcs),
        "inconclusive": errors[:20],
    }
    assumptions = sorted(set(getattr(mod, "ASSUMPTIONS", [])) | set(x for r in reps for x in r["assumptions"])
                         | set(x for r in reps for x in r["notes"]))
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.case:
        with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{a.prop} [{tier}] {len(reps)} harnesses, {cov['states']} paths, {cov['claims_discharged']}/{cov['claims']} claims, "
          f"{cov['solver_queries']} queries, solver {cov['solver_time_s']}s, traces {agreed} ok/{disagreed} off, "
          f"wall {ev['wall_s']}s")
    if a.v:
        for r in reps:
            print(f"   {r['case']}: paths={r['paths']} claims={r['claims']} wall={r['wall']:.1f} unknown={len(r['unknown'])}")
    if new:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        name, idx, fails, inp, before = new[0]
        h = hashlib.sha1(json.dumps([name, inp, before] if before else [name, inp], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{a.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "case": name, "idx": idx, "tier": tier, "inputs": inp, "before": before, "failures": fails,
                       "how": f"cd /verif && /opt/venv/bin/python run.py {a.prop} --replay {path}"}, f, indent=1)
        for f in fails[:4]:
            print(f"   {name}: {f}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errors:
        print("INCONCLUSIVE (not part of what is claimed to hold):")
        for e in errors[:12]:
            print("  -", e)
        if a.strict or cov["claims_discharged"] == 0:
            return 2
    return 0


def _within(inp, spec):
    if not spec:
        return True
    from fractions import Fraction

    for k, (lo, hi) in spec.items():
        v = inp.get(k)
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if not (lo <= v <= hi):
            return False
    return True


def _src_hash(funcs):
    out = {}
    for f in sorted(set(x.split(":")[0] for x in funcs)):
        try:
            out[f] = hashlib.sha256(open(os.path.join("/repo/src", f), "rb").read()).hexdigest()[:16]
        except OSError:
            pass
    return out


if __name__ == "__main__":
    sys.exit(main() or 0)
