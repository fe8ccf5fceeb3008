"""Worker process: runs a slice of plans, or a replay file, or the minimiser.

Protocol: JSON lines on the original stdout; everything the library prints goes to /dev/null.
"""
import json
import os
import sys


def _open_protocol():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    err = os.fdopen(os.dup(2), "w", buffering=1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    return out, err


def main():
    job = json.loads(sys.argv[1])
    out, err = _open_protocol()

    def send(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()

    try:
        from sim import core, env
        env.prepare(job)
        mod = core.load_prop(job["pid"])
        if hasattr(mod, "setup"):
            mod.setup(job)
    except BaseException:
        import traceback
        send({"status": "error", "cls": "setup", "msg": traceback.format_exc()[-6000:]})
        return
    kind = job["kind"]
    if kind == "slice":
        t_end = core.REAL_MONO() + job["soft_s"]
        for n, i in enumerate(job["indices"]):
            # a slow machine still makes the first runs, within reason
            if core.REAL_MONO() > t_end + (4 * job["soft_s"] if n < job.get("floor", 0) else 0.):
                send({"status": "soft-stop", "i": i})
                break
            send({"status": "start", "i": i})
            plan = core.make_plan(mod, job["pid"], job["seed"], i, job["tier"])
            res = core.run_plan(mod, plan)
            ev = res.pop("_events")
            if n == 0 or res["status"] != "ok":
                res["plan"] = plan
                res["events"] = [list(map(str, e)) for e in ev[:400]]
            send(res)
            if res["status"] == "violation" and not job.get("keep_going"):
                break
            env.between_runs(n)
        send({"status": "end"})
    elif kind == "replay":
        res = None
        for p in job["plans"]:
            res = core.run_plan(mod, p)
            ev = res.pop("_events")
            env.between_runs(0)
        res["events"] = [list(map(str, e)) for e in ev[-400:]]
        send(res)
        send({"status": "end"})
    elif kind == "plans":
        send({"status": "plans", "plans": [core.make_plan(mod, job["pid"], job["seed"], i, job["tier"])
                                           for i in job["indices"]]})
        send({"status": "end"})
    elif kind == "minimise":
        logs = []
        plan = core.minimise(mod, job["plans"][-1], job["cls"], job["budget_s"], logs.append)
        send({"status": "minimised", "plan": plan, "logs": logs})
        send({"status": "end"})


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
    sys.stdout.flush()
    os._exit(0)
