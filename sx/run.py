"""Run the check of one property:  python3-vt -m sx.run <property> [quick|thorough]"""
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVERY = bool(os.environ.get("VERIF_EVERY_WITNESS"))  # engine self-test: replay one input of every path
TARGET = os.environ.get("VERIF_TARGET", "/repo")
NATIVE_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
OUT = os.path.join(ROOT, "out")
CPUS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
BUDGET = {"quick": (150, 300), "thorough": (1500, 3600)}   # seconds per scenario, per property
QUERY_MS = {"quick": 30000, "thorough": 120000}
WITNESSES = {"quick": 3, "thorough": 8}


def native(jobs, timeout=60):
    """run jobs on the real code; list of results (None where it did not answer)"""
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "jobs.%d.json" % os.getpid())
    with open(path, "w") as f:
        json.dump(jobs, f)
    try:
        env = dict(os.environ, TZ="XST-5:30")
        env.pop("PYTHONPATH", None)
        p = subprocess.Popen([NATIVE_PY, os.path.join(ROOT, "rt", "native.py"), path], stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env)
        try:
            out, _ = p.communicate(timeout=timeout)
            hang = False
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            hang = True
        res = []
        for l in out.decode("utf-8", "replace").splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
        while len(res) < len(jobs):
            res.append({"status": "hang"} if hang and len(jobs) == 1 else None)
        return res
    finally:
        if os.path.exists(path):
            os.remove(path)


def load_known(prop):
    known = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    known.append(d)
    return known


# ------------------------------------------------------------------------------------ worker
def worker(prop, scen, tier, deadline, wfd):
    from sx import core, ctx as C
    import random
    import z3
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    z3.set_param("smt.random_seed", seed % 1000)
    e = core.Engine(query_timeout_ms=QUERY_MS[tier], deadline=deadline)
    core.set_engine(e)
    e.soft_exception = C.soft_exception
    if scen.steps:
        e.max_steps = scen.steps
    c = C.SymCtx(e, scen)
    known = load_known(prop)
    res = {"name": scen.name, "violation": None, "known": [], "unconfirmed": [], "witnesses": [], "limits": []}
    unconf = {}

    def on_violation(label, inputs, info):
        job = {"property": prop, "tier": tier, "scenario": scen.name, "inputs": inputs, "label": label, "info": info}
        r = native([job], timeout=20)[0]
        if r and r["status"] == "hang":
            r = {"status": "failed", "why": "does not terminate"}
        if r and r["status"] == "failed":
            job["why"] = r["why"]
            for k in known:
                if k["scenario"] == scen.name and k["label"] == label:
                    if k["id"] not in [x["id"] for x in res["known"]]:
                        res["known"].append(k)
                    return
            res["violation"] = job
            raise core.Violation(label)
        n = unconf[label] = unconf.get(label, 0) + 1
        if n <= 2:
            res["unconfirmed"].append({"label": label, "inputs": inputs, "info": info, "native": r})
        e.note_incomplete("counterexample for %r did not reproduce on the real code" % label)
        if n >= 20:
            raise core.BudgetExceeded("too many unreproduced counterexamples")
    e.on_violation = on_violation
    want = WITNESSES[tier]

    def on_path(eng):
        n = eng.st.paths
        # paths 1, 2, 4, 8, ... give witnesses
        if n & (n - 1) == 0 or len(res["witnesses"]) < 1 or EVERY:
            m = eng.path_model()
            if m is None:
                return
            inputs = eng.model_inputs(m)
            obs = None
            if scen.observe:
                obs = [[l, C.norm_under(C.under(m, v))] for l, v in c.observed]
            res["witnesses"].append({"inputs": inputs, "observed": obs})
            if len(res["witnesses"]) > want and not EVERY:
                del res["witnesses"][1]

    def on_limit(eng):
        # the encoding stops here: at least one input of this path is run on the real code
        if len(res["limits"]) < 40 and (eng.deadline is None or time.time() < eng.deadline):
            try:
                m = eng.path_model()
            except core.BudgetExceeded:
                return
            if m is not None:
                res["limits"].append({"inputs": eng.model_inputs(m), "observed": None})
    e.on_limit = on_limit

    def body():
        c.start()
        scen.fn(c)
    exhaustive = False
    try:
        exhaustive = e.explore(body, on_path)
    except core.Violation:
        pass
    except BaseException as x:
        res["crash"] = "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:])
    st = e.st
    res.update(exhaustive=exhaustive, paths=st.paths, killed=st.killed, decisions=st.decisions, queries=st.queries,
               solver_s=st.solver_s, unknown=st.unknown, obligations=st.obligations, trivial=st.trivial,
               incomplete=st.incomplete, inconclusive=e.inconclusive[:5], functions=sorted(e.functions),
               covers=sorted(e.covers), reached=e.reached_checks, concretised=st.concretised)
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def run_scenarios(prop, scens, tier, t_end):
    """fork a worker per scenario, at most CPUS at a time; hard-kill the ones that overrun"""
    todo = sorted(scens, key=lambda s: -s.weight)
    running, results = {}, {}
    per = BUDGET[tier][0]
    stop = False
    while todo or running:
        while todo and len(running) < CPUS and not stop:
            s = todo.pop(0)
            r, w = os.pipe()
            dl = min(time.time() + per, t_end)
            if time.time() >= t_end:
                os.close(r), os.close(w)
                results[s.name] = {"name": s.name, "skipped": True}
                continue
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                code = 0
                try:
                    worker(prop, s, tier, dl, w)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                os._exit(code)
            os.close(w)
            running[r] = [pid, s, dl + 15, b"", time.time()]
        if stop:
            for s in todo:
                results[s.name] = {"name": s.name, "skipped": True}
            todo = []
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            chunk = os.read(r, 1 << 16)
            if chunk:
                running[r][3] += chunk
                continue
            pid, s, dl, buf, t0 = running.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            try:
                res = pickle.loads(buf)
            except Exception:
                res = {"name": s.name, "crash": "worker ended with status %r" % status}
            res["wall"] = time.time() - t0
            results[s.name] = res
            if res.get("violation"):
                stop = True
        now = time.time()
        for r in list(running):
            if now > running[r][2] or stop:
                pid, s, dl, buf, t0 = running.pop(r)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(r)
                results[s.name] = {"name": s.name, "killed_hard": not stop, "skipped": stop, "wall": now - t0}
    return results


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2:] if len(argv) > 2 else None
    t0 = time.time()
    sys.dont_write_bytecode = True
    sys.path[:0] = [TARGET, ROOT]
    sys.path.append(SITE)
    from sx import instr
    instr.install()
    try:
        mod = importlib.import_module("harness." + prop)
        scens = mod.scenarios(tier)
    except Exception:
        # the code under test cannot be loaded: nothing was explored symbolically
        traceback.print_exc()
        print("ERROR property=%s cannot load harness or code under test" % prop)
        return 2
    if only:
        scens = [s for s in scens if any(o in s.name for o in only)]
    t_end = t0 + BUDGET[tier][1]
    results = run_scenarios(prop, scens, tier, t_end)
    # witnesses on the real code
    jobs, exp = [], []
    for s in scens:
        for w in results.get(s.name, {}).get("witnesses", []) + results.get(s.name, {}).get("limits", []):
            jobs.append({"property": prop, "tier": tier, "scenario": s.name, "inputs": w["inputs"]})
            exp.append(w)
    validated, diverged = 0, []
    if jobs:
        for j, w, r in zip(jobs, exp, native(jobs, timeout=120)):
            if r is None:
                diverged.append({"scenario": j["scenario"], "inputs": j["inputs"], "why": "no answer"})
            elif r["status"] == "ok" and (w["observed"] is None or r["observed"] == w["observed"]):
                validated += 1
            else:
                first = None
                if w["observed"] is not None and r.get("observed") is not None:
                    for x, y in zip(w["observed"], r["observed"]):
                        if x != y:
                            first = {"symbolic": x, "native": y}
                            break
                diverged.append({"scenario": j["scenario"], "inputs": j["inputs"], "status": r["status"],
                                 "why": r.get("why"), "first": first})
    viol = None
    for s in scens:
        v = results.get(s.name, {}).get("violation")
        if v:
            viol = v
            break
    if viol is None:
        # a path whose witness fails on the real code is a violation as well
        for d in diverged:
            if d.get("status") == "failed":
                viol = {"property": prop, "tier": tier, "scenario": d["scenario"], "inputs": d["inputs"], "label": "witness replay",
                        "why": d["why"]}
                break
    tot = {k: sum(r.get(k, 0) or 0 for r in results.values())
           for k in ("paths", "killed", "decisions", "queries", "solver_s", "unknown", "obligations", "trivial",
                     "reached", "concretised")}
    funcs = sorted(set(f for r in results.values() for f in r.get("functions", [])))
    incomplete = [{"scenario": d["scenario"], "notes": ["the real code behaved differently from the engine"]} for d in diverged]
    vacuous = []
    per_s = []
    for s in scens:
        r = results.get(s.name, {"skipped": True})
        notes = list(r.get("incomplete", [])) + list(r.get("inconclusive", []))
        if r.get("skipped"):
            notes.append("not run (stopped early or out of time)")
        if r.get("killed_hard"):
            notes.append("killed after its time limit")
        if r.get("crash"):
            notes.append("engine crash: " + r["crash"].splitlines()[0][:200])
        if notes and not r.get("violation"):
            incomplete.append({"scenario": s.name, "notes": [n[:200] for n in notes[:4]]})
        if not r.get("reached") and not notes and not r.get("violation"):
            vacuous.append(s.name)
        per_s.append([s.name, s.bounds, r.get("paths", 0), r.get("obligations", 0), r.get("queries", 0),
                      round(r.get("solver_s", 0), 2), round(r.get("wall", 0), 1), bool(r.get("exhaustive"))])
    known = {}
    for r in results.values():
        for k in r.get("known", []):
            known[k["id"]] = k
    exhaustive = not incomplete and not vacuous and viol is None
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "method": "symbolic execution of the real Python source of /repo (instrumented at import), every branch and "
                      "obligation decided by z3 over symbolic inputs within the stated bounds",
            "states": tot["paths"], "transitions": tot["decisions"],
            "traces_validated_against_impl": validated,
            "obligations": tot["obligations"], "discharged_by_simplification": tot["trivial"],
            "paths_infeasible": tot["killed"], "queries": tot["queries"], "solver_s": round(tot["solver_s"], 2),
            "solver_unknown": tot["unknown"], "exhaustive": exhaustive,
            "functions_encoded": funcs[:160],
            "scenarios_columns": ["scenario", "bounds", "paths", "obligations", "queries", "solver_s", "wall_s",
                                  "exhaustive_within_bounds"],
            "scenarios": per_s,
            "incomplete": incomplete[:60], "vacuous": vacuous,
            "witness_divergences": diverged[:5],
            "samples": [{"scenario": j["scenario"], "inputs": j["inputs"]} for j in jobs[:4]] or ["none"],
            "rule": "a state is one explored path (an equivalence class of inputs), a transition one solver-decided "
                    "branch; samples are solver models of explored paths, replayed on the uninstrumented code",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "models of struct, io.BytesIO, codecs, datetime, ipaddress and the built-in types in sx/ (validated by "
            "replaying path witnesses on the real interpreter)"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000:
        c = ev["coverage"]
        if len(c["samples"]) > 1:
            c["samples"] = c["samples"][:1]
        elif c["witness_divergences"]:
            c["witness_divergences"] = []
        elif c["functions_encoded"] and len(c["functions_encoded"]) > 40:
            c["functions_encoded"] = c["functions_encoded"][:40]
        elif len(c["scenarios"]) > 30:
            c["scenarios_omitted"] = c.get("scenarios_omitted", 0) + len(c["scenarios"]) - 30
            c["scenarios"] = c["scenarios"][:30]
        else:
            c["samples"] = ["too large to show"]
            c["incomplete"] = c["incomplete"][:5]
            txt = json.dumps(ev)
            break
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        f.write(txt)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    print("%s %s: %d scenarios, %d paths, %d obligations, %d queries, solver %.1fs, wall %.1fs, exhaustive=%s, "
          "witnesses %d/%d" % (prop, tier, len(scens), tot["paths"], tot["obligations"], tot["queries"],
                               tot["solver_s"], time.time() - t0, exhaustive, validated, len(jobs)))
    for i in incomplete[:60 if prop == "selftest" else 10]:
        print("  INCOMPLETE %s: %s" % (i["scenario"], "; ".join(i["notes"])))
    for r in results.values():
        for u in r.get("unconfirmed", [])[:2]:
            print("  INCONCLUSIVE %s: %s" % (r["name"], json.dumps(u)[:700]))
        if r.get("crash") and os.environ.get("VERIF_DEBUG"):
            print(r["crash"])
    for d in diverged[:5]:
        print("  DIVERGED %s" % json.dumps(d)[:900])
    if os.environ.get("VERIF_DEBUG"):
        for x in sorted(per_s, key=lambda x: -x[6])[:12]:
            print("   ", x)
    if viol:
        rep = os.path.join(OUT, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print("violated in scenario %s: %s" % (viol["scenario"], viol.get("why") or viol["label"]))
        print("replay with: %s %s --one %s" % (NATIVE_PY, os.path.join(ROOT, "rt", "native.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not tot["reached"]:
        print("ERROR property=%s nothing was explored" % prop)
        return 2
    if vacuous:
        print("ERROR property=%s vacuous scenarios: %s" % (prop, ", ".join(vacuous)))
        return 2
    return 0


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
