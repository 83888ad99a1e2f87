"""Check driver:  python -m symex.run PROPERTY [--tier quick|thorough] [--only SUBSTR] [--jobs N]

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: a counterexample
that reproduces on the real code.  Other: the check itself failed.
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
OUT = os.path.join(HERE, "out")


def child(h, path, budget, repo, max_cex):
    from symex import engine
    from symex.api import ReplayInputs

    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        try:
            env = h.build()
        except Exception as e:  # noqa: BLE001
            res = {"harness": h.name, "build_error": f"{type(e).__name__}: {e}",
                   "tb": traceback.format_exc()}
            pickle.dump(res, open(path, "wb"))
            return
        # warm-up: one concrete run, so lazily generated code exists before exploration
        for pre in (None,):
            try:
                h.run(ReplayInputs(pre), env)
            except Exception:  # noqa: BLE001
                pass
        res = engine.explore(h, env, budget, repo=repo, max_cex=max_cex)
        # proxies never leave the child
        pickle.dump(dict(res), open(path, "wb"))
    except BaseException as e:  # noqa: BLE001
        pickle.dump({"harness": h.name, "crash": f"{type(e).__name__}: {e}",
                     "tb": traceback.format_exc()}, open(path, "wb"))


def run_all(hs, tier, jobs, deadline, default_budget, repo, tmp, known):
    pending = list(enumerate(hs))
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < jobs and time.time() < deadline:
            i, h = pending.pop(0)
            path = os.path.join(tmp, f"r{i}.pkl")
            budget = min(h.budget or default_budget, max(1.0, deadline - time.time()))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    child(h, path, budget, repo, 24 if known.has(h.name) else 4)
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            running[pid] = (i, h, path, time.time() + budget + 60)
        if not running:
            for i, h in pending:
                results[i] = {"harness": h.name, "skipped": "time budget of the check used up"}
            break
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid:
            i, h, path, _ = running.pop(pid)
            try:
                results[i] = pickle.load(open(path, "rb"))
                os.unlink(path)
            except Exception as e:  # noqa: BLE001
                results[i] = {"harness": h.name, "crash": f"no result: {e}"}
            continue
        for pid, (i, h, path, kill_at) in list(running.items()):
            if time.time() > kill_at:
                os.kill(pid, signal.SIGKILL)
        if time.time() >= deadline and not running:
            pass
        time.sleep(0.005)
    return [results[i] for i in range(len(hs))]


def replay(prop, harness, draws, error, message, n, repo):
    from symex.encode import enc_draws

    d = os.path.join(OUT, "replays", prop)
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in harness)[:100]
    path = os.path.join(d, f"{safe}.{n}.json")
    json.dump({"property": prop, "harness": harness, "draws": enc_draws(draws), "error": error,
               "message": message,
               "how": f"cd {HERE} && /opt/venv/bin/python -m symex.replay {path}"},
              open(path, "w"), indent=1)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "symex.replay", path], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=120)
    return p.returncode, p.stdout, p.stderr, path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.property
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    import shutil
    import tempfile

    shutil.rmtree(os.path.join(OUT, "replays", prop), ignore_errors=True)
    from symex import env as _env

    _env.prepare(symbolic=True)
    from symex import engine
    from symex.known import load_known

    mod = importlib.import_module(f"props.{prop.lower()}")
    hs = [h for h in mod.harnesses(a.tier) if a.only in h.name]
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    total = 780.0 if a.tier == "quick" else 3000.0
    default_budget = getattr(mod, "BUDGET", {}).get(a.tier, 60.0 if a.tier == "quick" else 300.0)
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix="symex_")
    try:
        results = run_all(hs, a.tier, a.jobs, t0 + total, default_budget, _env.REPO, tmp, known)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    violations, spurious, inconclusive, errors, found_known = [], [], [], [], set()
    unreplayed = []
    by_name = {h.name: h for h in hs}

    def cexs_of(r):
        if "build_error" in r:
            return [([], "build: " + r["build_error"], r["build_error"])]
        out = [(c["draws"], c["error"], c["message"]) for c in r.get("cex", [])]
        return out + [(w["draws"], "witness", w["message"])
                      for w in r.get("witness_failures", [])]

    def replay_harness(r):
        """Replay the counterexamples of one harness until one is a new violation."""
        name = r["harness"]
        for n, (draws, error, message) in enumerate(cexs_of(r)):
            if len(violations) >= 12:
                unreplayed.append(name)
                return
            rc, so, se, path = replay(prop, name, draws, error, message, n, _env.REPO)
            if rc == 1 and "REPRODUCED" in so:
                k = known.match(name, draws)
                if k:
                    found_known.add(k)
                    continue
                violations.append((name, path, so.strip().splitlines()))
                if a.v:
                    print(so, se)
                return
            spurious.append((name, error, message, path))
            if a.v:
                print("SPURIOUS", name, error, message, so, se[-500:])
                if n < len(r.get("cex", [])):
                    print("".join(r["cex"][n]["where"]))

    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(replay_harness, [r for r in results if cexs_of(r)]))

    for r in results:
        name = r["harness"]
        h = by_name[name]
        if "crash" in r or "skipped" in r:
            inconclusive.append((name, r.get("crash") or r.get("skipped")))
        if a.v and "tb" in r:
            print(r["tb"])
        if "crash" in r or "skipped" in r:
            continue
        if "build_error" in r:
            continue
        missing = [] if (r["cex"] or not r["exhausted"]) else \
            [lab for lab in h.reach if not r["reached"].get(lab)]
        if not r["exhausted"] and not r["cex"] and not r["witness_failures"]:
            inconclusive.append((name, f"not exhausted: {r['paths']} paths in {r['seconds']:.0f}s, "
                                       f"unknown={r['unknown']} {r.get('unknown_msgs', [])[:2]}"))
        elif r["unknown"]:
            inconclusive.append((name, f"unsolved paths: {r['unknown']} "
                                       f"{r.get('unknown_msgs', [])[:2]}"))
        elif missing:
            inconclusive.append((name, f"vacuous: labels {missing} never reached"))
    for n, e, m, p in spurious:
        inconclusive.append((n, f"counterexample did not reproduce on the real code: {e}: {m}"))

    ok = [r for r in results if r.get("exhausted")]
    decided = sorted({r["harness"] for r in ok} - {n for n, _ in inconclusive}
                     - {v[0] for v in violations} - set(unreplayed))
    tot = lambda k: sum(r.get(k, 0) for r in results)  # noqa: E731
    functions = sorted({f for r in results for f in r.get("functions", [])})
    gen = sorted(f for f in functions if f.startswith("generated:"))
    src = [f for f in functions if not f.startswith("generated:")]
    wall = time.time() - t0
    samples = []
    for r in results[:: max(1, len(results) // 8)]:
        for s in r.get("samples", [])[:1]:
            samples.append({"harness": r["harness"], "input": s})
    evidence = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": tot("validated"), "samples": samples,
            "exhaustive": not inconclusive and not violations,
            "harnesses": len(results), "harnesses_decided": len(decided),
            "inconclusive": [{"harness": n, "why": w[:400]} for n, w in inconclusive],
            "solver_queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 3),
            "paths_confirmed": tot("confirmed"), "paths_assumed_away": tot("ignored"),
            "reachability": {r["harness"]: r.get("reached", {}) for r in results},
            "functions_encoded": src, "generated_functions_encoded": gen,
            "bounds": getattr(mod, "BOUNDS", ""),
            "known_findings_seen": sorted(found_known),
            "meaning": "states = execution paths explored to the end, transitions = branch "
                       "decisions settled by the solver on those paths, traces_validated = "
                       "solver models of confirmed paths re-executed on plain CPython",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    json.dump(evidence, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)

    for k in sorted(found_known):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for n, w in inconclusive:
        print(f"INCONCLUSIVE property={prop} harness={n}: {w[:1500 if a.v else 300]}")
    print(f"{prop} [{a.tier}]: {len(results)} harnesses, {len(decided)} decided, "
          f"{len(inconclusive)} inconclusive, {tot('paths')} paths, {tot('branches')} decisions, "
          f"{tot('queries')} queries ({tot('solver_s'):.1f}s solver), {wall:.1f}s wall")
    if a.v:
        slow = sorted(results, key=lambda r: -r.get("seconds", 0))[:8]
        for r in slow:
            print(f"   {r['harness']}: {r.get('paths')} paths {r.get('seconds', 0):.1f}s")
    if violations:
        if unreplayed:
            print(f"    further harnesses failed, not replayed: {sorted(set(unreplayed))[:40]}")
        for n, path, lines in violations:
            for ln in lines[:8]:
                print("   ", ln[:400])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if results and len(decided) * 2 < len(results):
        print("ERROR: fewer than half of the harnesses were decided")
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "message formatting (repr/format of values inside error texts) is stubbed to a fixed text",
    "beartype's random choice of the sampled container element is fixed (index 0) unless a "
    "harness draws it; beartype's violation message builder is stubbed",
    "beartype, jinja2, dataclasses and typing are executed as they are (trusted libraries)",
    "integers are unbounded, strings are arbitrary unless a bound is stated, floats are IEEE "
    "doubles; containers have the lengths stated in the bounds",
]

if __name__ == "__main__":
    sys.exit(main())
