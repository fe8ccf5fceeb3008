#!/usr/bin/env python3
"""Deterministic-simulation checks for jax-fem.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
    check.py --replay replays/C01-....json
    check.py --determinism C01 [--runs N]     (same seeds twice: other worker count and hash seed)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: error of the check itself.
"""
import argparse
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def worker_env(scratch, hashseed="0"):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("JAX_", "XLA_", "PYTHON", "VERIF_W", "PETSC_"))}
    env.update(
        HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
        LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), MPLBACKEND="Agg",
        TF_CPP_MIN_LOG_LEVEL="3", PYTHONPATH=VERIF, VERIF_DIR=VERIF,
    )
    env["XLA_FLAGS"] = ("--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 "
                        "--xla_llvm_disable_expensive_passes=true")   # compile time dominates short runs
    return env


class Worker:
    def __init__(self, job, scratch_root, name, hashseed="0"):
        self.name = name
        self.scratch = os.path.join(scratch_root, name)
        for d in ("home", "tmp", "cwd"):
            os.makedirs(os.path.join(self.scratch, d), exist_ok=True)
        job = dict(job, scratch=self.scratch, cache=os.path.join(scratch_root, "cache", name))
        self.job = job
        self.proc = subprocess.Popen(
            [PY, "-B", "-W", "ignore", os.path.join(VERIF, "sim", "worker.py"), json.dumps(job)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get("VERIF_DEBUG") else None,
            cwd=os.path.join(self.scratch, "cwd"), env=worker_env(self.scratch, hashseed),
            start_new_session=True)
        self.buf = b""
        self.last = time.monotonic()
        self.current = None
        self.done = []
        self.ended = False
        self.eof = False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


def pump(workers, on_msg, hang_s, t_end):
    """Deliver worker messages until all have ended, on_msg returns True, or a deadline passes."""
    live = {w.proc.stdout.fileno(): w for w in workers}
    while live:
        r, _, _ = select.select(list(live), [], [], 1.0)
        now = time.monotonic()
        for fd in r:
            w = live[fd]
            data = os.read(fd, 1 << 16)
            if not data:
                del live[fd]
                w.eof = True
                if not w.ended:
                    w.proc.wait()
                    tail = b""
                    if w.proc.stderr is not None:
                        tail = w.proc.stderr.read()[-3000:]
                    if on_msg(w, {"status": "died", "i": w.current,
                                  "msg": f"worker exited {w.proc.returncode}: {tail.decode(errors='replace')}"}):
                        return "stop"
                continue
            w.last = now
            w.buf += data
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                m = json.loads(line)
                if m["status"] == "start":
                    w.current = m["i"]
                    continue
                if m["status"] == "end":
                    w.ended = True
                    continue
                if m.get("i") is not None and m["status"] in ("ok", "violation"):
                    w.done.append(m["i"])
                if on_msg(w, m):
                    return "stop"
        for w in live.values():
            if now - w.last > hang_s:
                if on_msg(w, {"status": "hang", "i": w.current, "msg": f"no message for {hang_s}s"}):
                    return "stop"
                w.last = now
        if now > t_end:
            return "timeout"
    return "ended"


def one_job(job, scratch_root, name, hang_s=170, hashseed="0"):
    w = Worker(job, scratch_root, name, hashseed)
    got = []

    def on(w_, m):
        got.append(m)
        return False
    state = pump([w], on, hang_s, time.monotonic() + hang_s)
    w.kill()
    if state != "ended" and not any(g["status"] in ("violation", "minimised", "ok") for g in got):
        got.append({"status": "hang", "msg": "timeout"})
    return got


def known_findings():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def is_known(pid, cls, msg, plan):
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == pid and k["class"] == cls \
                and re.search(k["message_regex"], msg):
            return k
    return None


def confirm_and_minimise(pid, tier, seed, found, worker, scratch, budget):
    """Returns (replay_path, final message).  The replay file reproduces in a fresh process."""
    os.makedirs(REPLAYS, exist_ok=True)
    plan = found["plan"]
    cls = found["cls"]
    base = {"pid": pid, "tier": tier, "seed": seed}
    notes = []

    def replays(plans, n):
        got = one_job(dict(base, kind="replay", plans=plans), scratch, f"r{n}")
        return next((g for g in got if g["status"] in ("violation", "ok", "error")), got[-1] if got else {"status": "none"})

    n = 0
    r = replays([plan], n)
    plans = [plan]
    if not (r["status"] == "violation"):
        # The failure may need the history of the process it happened in.
        n += 1
        pre = worker_history(pid, tier, seed, worker, found["i"], scratch)
        r = replays(pre + [plan], n) if pre else r
        if r["status"] == "violation":
            plans = pre + [plan]
            notes.append("needs the preceding runs of the same process")
            # drop history greedily
            t_end = time.monotonic() + budget
            k = len(plans) - 2
            while k >= 0 and time.monotonic() < t_end:
                cand = plans[:k] + plans[k + 1:]
                n += 1
                rr = replays(cand, n)
                if rr["status"] == "violation" and rr["cls"] == cls:
                    plans = cand
                k -= 1
        else:
            notes.append("did not reproduce in a fresh process")
    elif r["status"] == "violation":
        got = one_job(dict(base, kind="minimise", plans=[plan], cls=r["cls"], budget_s=budget), scratch,
                      "min", hang_s=budget + 200)
        mini = next((g for g in got if g["status"] == "minimised"), None)
        if mini is not None:
            notes += mini["logs"]
            n += 1
            rr = replays([mini["plan"]], n)
            if rr["status"] == "violation" and rr["cls"] == r["cls"]:
                plans, r = [mini["plan"]], rr
            else:
                notes.append("minimised plan did not reproduce in a fresh process; kept the original")
    if r["status"] != "violation":
        r = found
    path = os.path.join(REPLAYS, f"{pid}-{found['i']}-seed{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "plans": plans,
                   "violation": {"class": r["cls"], "message": r["msg"], "log": r.get("log")},
                   "trace": r.get("events"), "notes": notes}, f, indent=1)
    return path, r, notes


def worker_history(pid, tier, seed, worker, index, scratch):
    got = one_job({"pid": pid, "tier": tier, "seed": seed, "kind": "plans",
                   "indices": [i for i in worker.job["indices"] if i < index]}, scratch, "hist")
    for g in got:
        if g["status"] == "plans":
            return g["plans"]
    return []


def stuck(a, m, scratch):
    """The run never came back, or its process died: a violation if it does so again alone."""
    if m["status"] not in ("hang", "died") or m.get("i") is None:
        return False
    base = {"pid": a.pid, "tier": a.tier, "seed": a.seed}
    got = one_job(dict(base, kind="plans", indices=[m["i"]]), scratch, "stuck-plan")
    plan = next((g["plans"][0] for g in got if g["status"] == "plans"), None)
    if plan is None:
        return False
    got = one_job(dict(base, kind="replay", plans=[plan]), scratch, "stuck")
    if not any(g["status"] == m["status"] for g in got) or any(g["status"] in ("ok", "violation") for g in got):
        return False
    os.makedirs(REPLAYS, exist_ok=True)
    with open(os.path.join(REPLAYS, f"{a.pid}-{m['i']}-seed{a.seed}.json"), "w") as f:
        json.dump({"property": a.pid, "seed": a.seed, "tier": a.tier, "plans": [plan],
                   "violation": {"class": m["status"], "message": m["msg"], "log": None}, "trace": None, "notes": []}, f, indent=1)
    return True


def replay_cmd(path):
    with open(path) as f:
        rp = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        got = one_job({"pid": rp["property"], "tier": rp["tier"], "seed": rp["seed"], "kind": "replay",
                       "plans": rp["plans"]}, scratch, "replay")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for g in got:
        for e in g.get("events", []):
            print("  ", " | ".join(e))
        if g["status"] == "violation":
            same = (g["cls"] == rp["violation"]["class"], g["log"] == rp["violation"].get("log"))
            print(f"{g['cls']}: {g['msg']}")
            print(f"same class: {same[0]}; identical event log: {same[1]}")
            print(f"VIOLATION property={rp['property']} replay={path}")
            return 1
        if g["status"] in ("hang", "died") and g["status"] == rp["violation"]["class"]:
            print(g["status"], g["msg"])
            print(f"VIOLATION property={rp['property']} replay={path}")
            return 1
        if g["status"] in ("error", "died", "hang"):
            print(g["msg"])
            return 2
    print(f"replay of {path}: property {rp['property']} held")
    return 0


def run_batch(pid, tier, seed, indices, nworkers, soft_s, hard_s, scratch, keep_going=False,
              hashseed="0", hang_s=240, floor=0):
    nworkers = max(1, min(nworkers, len(indices)))
    workers = []
    for k in range(nworkers):
        job = {"pid": pid, "tier": tier, "seed": seed, "kind": "slice", "indices": indices[k::nworkers],
               "soft_s": soft_s, "keep_going": keep_going,
               "floor": -(-floor // nworkers)}
        workers.append(Worker(job, scratch, f"w{k}", hashseed))
    results, bad = [], []

    def on(w, m):
        if m["status"] == "ok":
            results.append(m)
        elif m["status"] == "soft-stop":
            pass
        elif m["status"] == "violation":
            k = is_known(pid, m["cls"], m["msg"], m.get("plan"))
            if k is not None:
                m["known"] = k
                results.append(m)
                return False
            bad.append((w, m))
            return not keep_going
        else:
            bad.append((w, m))
            return m["status"] != "violation"
        return False
    try:
        state = pump(workers, on, hang_s, time.monotonic() + hard_s)
    finally:
        for w in workers:
            w.kill()
    return results, bad, state, workers


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--soft", type=float, help="stop starting runs after this many seconds")
    ap.add_argument("--index", type=int, help="run only this index")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--survey", action="store_true", help="keep going and list every violation")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        return replay_cmd(a.replay)
    with open(os.path.join(VERIF, "sim", "budget.json")) as f:
        bud = json.load(f)
    bud = bud.get(a.pid) or dict(next(iter(bud.values())), quick={"runs": 240, "soft_s": 60})     # a property under development
    runs = a.runs or bud[a.tier]["runs"]
    soft = a.soft or bud[a.tier]["soft_s"]
    indices = [a.index] if a.index is not None else list(range(runs))
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.pid}-")
    t0 = time.monotonic()
    try:
        if a.determinism:
            return determinism(a, indices, soft, scratch)
        results, bad, state, workers = run_batch(
            a.pid, a.tier, a.seed, indices, a.workers, soft, soft + 400, scratch, keep_going=a.survey,
            floor=max(32, bud.get("min_runs", 1)))
        rc = 0
        viol = [(w, m) for w, m in bad if m["status"] == "violation"]
        errs = [(w, m) for w, m in bad if m["status"] != "violation"]
        if a.survey:
            from collections import Counter
            for w, m in viol:
                print("i", m["i"], m["cls"], m["msg"][:300].replace("\n", " "))
            print(Counter(m["cls"] for w, m in viol))
        extra = {}
        if viol:
            viol.sort(key=lambda t: t[1]["i"])
            w, m = viol[0]
            if a.no_min or a.survey:
                print(m["cls"], m["msg"])
                for e in m["events"]:
                    print("   ", " | ".join(e))
                print(f"VIOLATION property={a.pid} replay=none index={m['i']}")
            else:
                path, r, notes = confirm_and_minimise(a.pid, a.tier, a.seed, m, w, scratch, 60)
                print(f"seed={a.seed} run={m['i']}: {r['cls']}: {r['msg']}")
                for nt in notes:
                    print("  note:", nt)
                for e in (r.get("events") or [])[-40:]:
                    print("   ", " | ".join(e))
                print(f"VIOLATION property={a.pid} replay={path}")
                extra["violation"] = {"class": r["cls"], "message": r["msg"][:500], "replay": path}
            rc = 1
        elif errs and not a.survey and stuck(a, errs[0][1], scratch):
            m = errs[0][1]
            path = os.path.join(REPLAYS, f"{a.pid}-{m['i']}-seed{a.seed}.json")
            print(f"seed={a.seed} run={m['i']}: {m['status']}: {m['msg']} (twice: in the batch and alone in a fresh process)")
            print(f"VIOLATION property={a.pid} replay={path}")
            extra["violation"] = {"class": m["status"], "message": m["msg"], "replay": path}
            rc = 1
        elif errs:
            for w, m in errs[:3]:
                print(f"check error: status={m['status']} run={m.get('i')}: {m.get('msg')}")
            rc = 2
        elif state == "timeout":
            print("check error: wall clock limit reached")
            rc = 2
        elif len(results) < min(len(indices), bud.get("min_runs", 1)):
            print(f"check error: only {len(results)} of {len(indices)} runs finished in {soft}s")
            rc = 2
        known_seen = {}
        for m in results:
            if m.get("known"):
                known_seen[m["known"]["id"]] = m["known"]
        for k in known_seen.values():
            print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
        wall = time.monotonic() - t0
        if not a.no_evidence:
            write_evidence(a, bud, results, viol, wall, extra, indices)
        if rc == 0:
            print(f"{a.pid}: held on {len(results)} simulated runs, seed {a.seed}, {wall:.0f} s")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(a, bud, results, viol, wall, extra, indices):
    os.makedirs(EVIDENCE, exist_ok=True)
    allres = results + [m for w, m in viol]
    faults, probes = {}, {}
    for m in allres:
        for k, v in m.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in m.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
    nontriv = [m for m in allres if m.get("nontrivial")]
    shapes = {m["shape"] for m in nontriv}
    states = set()
    for m in allres:
        states.update(m.get("states", []))
    samples = [m["plan"] for m in allres if m.get("plan")][:3]
    meta = bud["meta"]
    ev = {
        "property": a.pid, "tier": a.tier, "seed": a.seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": len(allres),
            "distinct_nontrivial": len(shapes),
            "rule": meta["rule"],
            "samples": samples,
            "oracle_comparisons": sum(m.get("checks", 0) for m in allres),
            "runs_per_hour_one_seed_each": round(len(allres) / max(wall, 1e-9) * 3600),
            "distinct_event_logs": len({m["log"] for m in allres}),
            "simulated_seconds": round(sum(m.get("sim_time", 0.0) for m in allres), 3),
            "library_steps_observed": sum(m.get("steps", 0) for m in allres),
            "fault_kinds_injected": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "states_measure": meta.get("states", "not measured"),
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            **extra,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVIDENCE, f"{a.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def determinism(a, indices, soft, scratch):
    import itertools
    outs = []
    for nw, hs, tag in ((a.workers, "0", "a"), (max(1, a.workers // 2 + 1), "7", "b")):
        sc = os.path.join(scratch, tag)
        os.makedirs(sc)
        results, bad, state, _ = run_batch(a.pid, a.tier, a.seed, indices, nw, soft * 4, soft * 4 + 300, sc,
                                           keep_going=True, hashseed=hs)
        outs.append({m["i"]: m for m in results + [m for w, m in bad if m["status"] == "violation"]})
    common = sorted(set(outs[0]) & set(outs[1]))
    diff = [i for i in common if outs[0][i]["log"] != outs[1][i]["log"]]
    print(f"{a.pid}: {len(common)} runs executed twice ({a.workers} and {max(1, a.workers // 2 + 1)} workers, "
          f"PYTHONHASHSEED 0 and 7): {len(diff)} event logs differ {diff[:20]}")
    return 0 if common and not diff else 2


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
