"""Command line: run.sh <ID> [--tier T] [--runs N] [--workers N]
[--replay FILE] [--digests N]"""
import argparse
import glob
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def load(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            mod = importlib.import_module("props." + f[:-3])
            return mod.PROPERTY
    raise SystemExit("no property module for %s" % pid)


def known_findings(pid):
    """Lines 'KNOWN-FINDING: property=<id> class=<cls> plan=<file> <what>'."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) "
                     r"plan=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = (m.group(3), m.group(4).strip())
    return out


def take(queue, nruns, chunk):
    """Takes the next runs; the pipe holds the one number not yet taken."""
    while True:
        i = int.from_bytes(os.read(queue[0], 8), "little")
        os.write(queue[1], (i + chunk).to_bytes(8, "little"))
        if i >= nruns:
            return
        for k in range(i, min(i + chunk, nruns)):
            yield k


def worker(prop, seed, tier, queue, chunk, nruns, deadline, wfd, known):
    """Executes the runs it takes, each in its own forked process."""
    agg = {"runs": 0, "faults": {}, "probes": {}, "sigs": set(), "events": 0,
           "simtime": 0.0, "nontrivial": {}, "bad": [], "errors": [],
           "samples": [], "digests": {}, "known": {}, "evals": 0,
           "fault_runs": 0}
    for i in take(queue, nruns, chunk):
        if time.monotonic() > deadline:
            break
        plan = core.plan_for(prop, seed, i, tier)
        res = core.fork_run(prop, plan)
        agg["runs"] += 1
        if res["verdict"] == "error":
            agg["errors"].append((i, res["error"]))
            if len(agg["errors"]) > 3:
                break
            continue
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        if res["faults"]:
            agg["fault_runs"] += 1
        for k, v in res["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["sigs"].update(res["sigs"])
        agg["events"] += res["n"]
        agg["evals"] += res["evals"]
        agg["simtime"] += res["simtime"]
        agg["digests"][i] = res["digest"]
        if res["nontrivial"]:
            agg["nontrivial"][res["digest"]] = 1
        if len(agg["samples"]) < 1 and res["nontrivial"]:
            agg["samples"].append({"run": i, "plan": prop.describe(plan),
                                   "history": res["lines"][:25],
                                   "digest": res["digest"]})
        new = []
        for cls, msg in res["violations"]:
            if cls in known:
                agg["known"][cls] = agg["known"].get(cls, 0) + 1
            else:
                new.append((cls, msg))
        if new:
            agg["bad"].append((i, plan, new))
            if len(agg["bad"]) >= 3:
                break
    agg["sigs"] = sorted(agg["sigs"])
    data = json.dumps(agg).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def run_workers(prop, seed, tier, nworkers, nruns, deadline, known):
    import select
    procs = {}
    bufs = {}
    queue = os.pipe()
    os.write(queue[1], bytes(8))
    chunk = 1 if nruns < 2000 else 4
    for w in range(nworkers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(prop, seed, tier, queue, chunk, nruns, deadline, wfd,
                       known)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(wfd)
        procs[r] = pid
        bufs[r] = []
    out = []
    live = set(procs)
    while live:
        rl, _, _ = select.select(list(live), [], [], 10)
        for r in rl:
            b = os.read(r, 1 << 16)
            if b:
                bufs[r].append(b)
            else:
                live.discard(r)
                os.close(r)
                os.waitpid(procs[r], 0)
                try:
                    out.append(json.loads(b"".join(bufs[r]).decode()))
                except ValueError:
                    out.append(None)
    return out


def fresh_digests(pid, seed, tier, idxs, hashseed):
    """Re-executes runs in a fresh interpreter under another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
               VERIF_SEED=str(seed))
    cmd = [sys.executable, "-W", "ignore", "-m", "sim.main", pid, "--tier",
           tier, "--digests", ",".join(map(str, idxs))]
    p = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    for line in p.stdout.decode().splitlines():
        if line.startswith("DIGESTS "):
            return {int(k): v for k, v in json.loads(line[8:]).items()}
    return {}


def replay(prop, fname, quiet=False):
    data = json.load(open(fname))
    res = core.fork_run(prop, data["plan"], keep=True)
    if not quiet:
        for line in res.get("lines", []):
            print("  " + line)
        for cls, msg in res["violations"]:
            print("  violated: %s\n    %s" % (cls, msg))
        if res["verdict"] == "error":
            print(res["error"])
    same = any(v[0] == data["class"] for v in res["violations"])
    print("REPLAY reproduced=%s class=%s digest=%s expected=%s"
          % (same, data["class"], res.get("digest"), data.get("digest")))
    return same, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int,
                    default=int(os.environ.get("VERIF_WORKERS",
                                               min(8, os.cpu_count() or 1))))
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--show", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--stats", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = args.id
    t0 = time.monotonic()
    # scratch space of this invocation, removed at the end
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.environ["VERIF_SCRATCH"] = base
    tempfile.tempdir = base
    try:
        return _main(args, pid, tier, seed, t0)
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)


def _main(args, pid, tier, seed, t0):
    prop = load(pid)
    prop.setup()
    import gc
    gc.collect()
    gc.freeze()
    if args.replay:
        same, res = replay(prop, args.replay)
        return 1 if same else 0
    if args.digests:
        out = {}
        for i in map(int, args.digests.split(",")):
            res = core.fork_run(prop, core.plan_for(prop, seed, i, tier))
            out[i] = res.get("digest", "?")
        print("DIGESTS " + json.dumps(out))
        return 0
    if args.show is not None:
        plan = core.plan_for(prop, seed, args.show, tier)
        print(json.dumps(plan)[:6000])
        res = core.fork_run(prop, plan, keep=True)
        for line in res.get("lines", []):
            print("  " + line)
        res["lines"] = []
        res["sigs"] = len(res.get("sigs", []))
        print(json.dumps(res, indent=1))
        if res["verdict"] == "error":
            print(res["error"])
        return 0
    print("%s seed=%d tier=%s repo=%s" % (pid, seed, tier, core.REPO))
    nruns = args.runs or prop.runs[tier]
    nworkers = args.workers
    known = known_findings(pid)
    known_seen = {}
    violations = []   # (cls, msg, plan, run)
    errors = []
    # 1. plans kept from earlier findings (known findings and repaired bugs)
    pinned = 0
    for f in sorted(glob.glob(os.path.join(HERE, "pinned", pid, "*.json"))):
        data = json.load(open(f))
        res = core.fork_run(prop, data["plan"])
        pinned += 1
        if res["verdict"] == "error":
            errors.append((os.path.basename(f), res["error"]))
        for cls, msg in res["violations"]:
            if cls in known:
                known_seen[cls] = known_seen.get(cls, 0) + 1
            else:
                violations.append((cls, msg, data["plan"], "pinned:" +
                                   os.path.basename(f)))
    # 2. seeded search
    deadline = t0 + prop.wall[tier]
    t_search = time.monotonic()
    outs = run_workers(prop, seed, tier, nworkers, nruns, deadline,
                       set(known))
    search_s = max(time.monotonic() - t_search, 1e-6)
    agg = {"runs": 0, "events": 0, "simtime": 0.0, "faults": {}, "probes": {},
           "evals": 0, "fault_runs": 0}
    sigs, nontriv, digests, samples = set(), set(), {}, []
    for o in outs:
        if o is None:
            errors.append(("worker", "a worker died"))
            continue
        for k in ("runs", "events", "simtime", "evals", "fault_runs"):
            agg[k] += o[k]
        for d in ("faults", "probes"):
            for k, v in o[d].items():
                agg[d][k] = agg[d].get(k, 0) + v
        sigs.update(o["sigs"])
        nontriv.update(o["nontrivial"])
        digests.update({int(k): v for k, v in o["digests"].items()})
        samples += o["samples"]
        for k, v in o["known"].items():
            known_seen[k] = known_seen.get(k, 0) + v
        for i, plan, new in o["bad"]:
            for cls, msg in new:
                violations.append((cls, msg, plan, i))
        errors += [tuple(e) for e in o["errors"]]
    # 3. repeatability: a sample again, fresh interpreter, other hash seed
    idxs = sorted(digests)
    step = max(1, len(idxs) // (24 if tier == "quick" else 120))
    sample_idx = idxs[::step]
    redo = {}
    if sample_idx and not violations:
        # split over a few processes
        import concurrent.futures as cf
        parts = [sample_idx[k::6] for k in range(6) if sample_idx[k::6]]
        with cf.ThreadPoolExecutor(6) as ex:
            futs = [ex.submit(fresh_digests, pid, seed, tier, p, 1 + 7 * k)
                    for k, p in enumerate(parts)]
            for f in futs:
                redo.update(f.result())
    diverged = [i for i in redo if redo[i] != digests.get(i)]
    if diverged and not violations:
        # tell a history that depends on the interpreter's hash seed from a
        # broken harness: same hash seed again
        again = fresh_digests(pid, seed, tier, diverged[:4],
                              os.environ.get("PYTHONHASHSEED", "0"))
        stable = [i for i in again if again[i] == digests.get(i)]
        if stable and prop.hash_sensitive:
            i = stable[0]
            violations.append((
                "depends-on-hash-order",
                "run %d gives another history under another hash seed" % i,
                core.plan_for(prop, seed, i, tier), i))
        else:
            errors.append(("repeatability", "runs %s are not repeatable"
                           % diverged))
    # report ---------------------------------------------------------------
    for cls in known:
        if cls in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[cls][1]))
        else:
            print("note: known finding %s was not reproduced" % cls)
    rdir = os.path.join(HERE, "evidence", "replay")
    reported = []
    seen = set()
    violations.sort(key=lambda v: (isinstance(v[3], str), v[3]
                                   if isinstance(v[3], int) else 0))
    for cls, msg, plan, i in violations:
        if cls in seen or len(reported) >= 4:
            continue
        seen.add(cls)
        if cls != "depends-on-hash-order" and not any(
                any(c == cls for c, _ in core.fork_run(prop, plan)[
                    "violations"]) for _ in range(3)):
            # one execution of a plan is like any other: not believed
            print("note: %s (run %s) was not reproduced, not reported"
                  % (cls, i))
            continue
        os.makedirs(rdir, exist_ok=True)
        if cls == "depends-on-hash-order":
            small, tries = plan, 0
            digest = digests.get(i)
        else:
            small, tries = core.minimise(prop, plan, cls)
            res = core.fork_run(prop, small)
            digest = res.get("digest")
            for c, m in res["violations"]:
                if c == cls:
                    msg = m
        fname = os.path.join(rdir, "%s-%s.json" % (
            pid, re.sub(r"[^A-Za-z0-9]+", "-", cls)[:80]))
        with open(fname, "w") as f:
            json.dump({"property": pid, "class": cls, "message": msg,
                       "seed": seed, "run": i, "tier": tier,
                       "digest": digest, "plan": small,
                       "original_plan": plan, "minimiser_tries": tries,
                       "replay_cmd": "bash /verif/run.sh %s --replay %s"
                       % (pid, fname)}, f, indent=1)
        print("violated: %s (seed=%d run=%s)\n  %s" % (cls, seed, i, msg))
        print("VIOLATION property=%s replay=%s" % (pid, fname))
        if cls != "depends-on-hash-order":
            p = subprocess.run([sys.executable, "-W", "ignore", "-m",
                                "sim.main", pid, "--replay", fname],
                               cwd=HERE, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            for line in p.stdout.decode().splitlines():
                if line.startswith("REPLAY "):
                    print(line + " (fresh process)")
        reported.append(cls)
    wall = time.monotonic() - t0
    cov = {
        "evaluations": agg["runs"] + pinned,
        "distinct_nontrivial": len(nontriv),
        "rule": prop.rule,
        "samples": samples[:3],
        "runs_requested": nruns,
        "runs_per_hour": int(agg["runs"] / search_s * 3600),
        "seeds_per_hour": int(agg["runs"] / search_s * 3600),
        "simulated_events": agg["events"],
        "oracle_evaluations": agg["evals"],
        "simulated_time_s": round(agg["simtime"], 3),
        "runs_with_faults": agg["fault_runs"],
        "runs_fault_free": agg["runs"] - agg["fault_runs"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "distinct_states_reached": len(sigs),
        "distinct_states_measure": getattr(
            prop, "sig_measure", "distinct signatures recorded by the run"),
        "distinct_histories": len(set(digests.values())),
        "repeatability": {
            "runs_repeated_in_fresh_interpreter_other_hashseed": len(redo),
            "diverged": len(diverged)},
        "pinned_plans": pinned,
        "workers": nworkers,
        "components_real": prop.real,
        "components_stubbed": prop.stub,
        "known_findings_reproduced": known_seen,
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed,
                       "level": prop.level, "coverage": cov,
                       "assumptions": prop.assumptions,
                       "wall_s": round(wall, 3),
                       "violations": len(reported)}, f, indent=1)
    if args.stats:
        print(json.dumps({k: cov[k] for k in cov if k not in
                          ("samples", "rule")}, indent=1))
    print("%s: %d runs, %d distinct non-trivial, %d fault(s) fired, %.1fs"
          % (pid, agg["runs"], len(nontriv), sum(agg["faults"].values()),
             wall))
    if reported:
        return 1
    if errors:
        print("HARNESS-ERROR %s" % (errors[0],))
        return 2
    if agg["runs"] < min(nruns, 20):
        print("HARNESS-ERROR too few runs within the time limit")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
