#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and sim/budget.json from the descriptions below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOLVER, PROBLEM, FE, UTILS, GM = ("jax_fem/solver.py", "jax_fem/problem.py", "jax_fem/fe.py",
                                  "jax_fem/utils.py", "jax_fem/generate_mesh.py")
REAL_CORE = ["jax_fem.problem", "jax_fem.fe", "jax_fem.basis", "jax_fem.solver", "JAX/XLA CPU", "PETSc (petsc4py)",
             "SciPy sparse direct solver", "basix"]
P = {}
NA = {}

exec(open(os.path.join(V, "tools", "props_text.py")).read())


def design():
    """DESIGN.md = tools/DESIGN.in.md with the tables filled in."""
    import glob
    t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
    fs = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    t = t.replace("FINDINGS", "\n".join(f"| {f['property']} | {f['entry'].split()[2]} | {f['what']} |" for f in fs))
    t = t.replace("NALIST", "\n".join(f"* **{k} {NA[k]['title']}** - {NA[k]['reason']}" for k in sorted(NA)))
    rows = []
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} |")
    t = t.replace("SEEDED", "All of these change only original non-test lines, pass the stable tests, and are caught by the check of their property:\n\n"
                  "| `seeded/` | Property | What it breaks |\n|---|---|---|\n" + "\n".join(rows))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid in sorted(list(P) + list(NA)):
            d = P.get(pid) or NA[pid]
            f.write(json.dumps({"id": pid, "title": d["title"], "statement": d["statement"],
                                "quantifier": {"over": d["over"], "text": d["quant"]},
                                "why_tests_cant": d["why"],
                                "anchors": {"files": d["files"],
                                            "mechanism": [{"name": a, "where": b} for a, b in d["mech"]],
                                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in d.get("state", [])],
                                            "observe_at": d["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python -B tools/selfcheck.py",
           "hooks": {"guard": "none", "enable": "No hook in /repo is needed: line events (sys.monitoring), the clock, the linear "
                     "solvers, file I/O, gmsh, AMGX, MPI and PETSc are replaced at their import or call boundary from /verif.",
                     "source_commits": []},
           "checks": [], "not_applicable": [{"property": k, "reason": NA[k]["reason"]} for k in sorted(NA)],
           "notes": "Every check is check.py (deterministic simulation, see DESIGN.md). VERIF_SEED selects the seed family; "
                    "a violation writes a minimised replay file that `check.py --replay FILE` reproduces exactly."}
    bud = {}
    for pid in sorted(P):
        d = P[pid]
        man["checks"].append({"property": pid,
                              "quick_cmd": f"/opt/venv/bin/python -B check.py {pid} --tier quick",
                              "thorough_cmd": f"/opt/venv/bin/python -B check.py {pid} --tier thorough",
                              "evidence_file": f"evidence/{pid}.json",
                              "technique": d["technique"], "level": d.get("level", "exploration"),
                              "level_note": d["note"]})
        q, t = d.get("quick", (240, 50)), d.get("thorough", (20000, 780))
        bud[pid] = {"quick": {"runs": q[0], "soft_s": q[1]}, "thorough": {"runs": t[0], "soft_s": t[1]},
                    "min_runs": d.get("min_runs", 12),
                    "meta": {"level": d.get("level", "exploration"), "rule": d["rule"], "real": d.get("real", REAL_CORE),
                             "stub": d["stub"], "assumptions": d["assume"], "states": d["states"]}}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    with open(os.path.join(V, "sim", "budget.json"), "w") as f:
        json.dump(bud, f, indent=1)
    design()
    import subprocess
    code = ("import json,jsonschema;"
            "jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));"
            "s=json.load(open('/root/.vp/PROPERTIES.schema.json'));"
            "[jsonschema.validate(json.loads(l),s) for l in open('/verif/properties.jsonl')];print('schemas ok')")
    subprocess.run(["python3-vt", "-c", code])


main()
