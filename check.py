"""check.py Cxx [--replay FILE]: decides one property of the planner in /repo.

1. every contract of the property: obligations regenerated from the current source, discharged by z3 / cvc5;
2. the same property checked at run time on the real code over generated cases (bounded).
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PLANNER_CHECK") != "1":
    env = dict(os.environ)
    env["PLANNER_CHECK"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): env[k] = "1"
    env["PYTHONPATH"] = HERE
    os.chdir(HERE)
    sys.exit(subprocess.run([PY if os.path.exists(PY) else sys.executable, os.path.abspath(__file__), *sys.argv[1:]], env=env).returncode)

from pyvc import boot  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import select  # noqa: E402
import signal  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore")

from harness import core  # noqa: E402
from props import PROPS  # noqa: E402


def log(*a): print(*a, flush=True)


# ------------------------------------------------------------------ proofs
def prove_one(ct, seed, deadline, ms):
    from pyvc.registry import REG, gen
    from pyvc import solve
    r = gen(REG, ct)
    d = {"contract": ct.name, "target": ct.target, "error": r.error, "paths": r.paths, "gen_s": round(r.seconds, 2),
         "inlined": r.inlined, "models": r.models, "assumed_contracts": r.assumed, "trusted": bool(ct.trusted), "loops": bool(ct.loops), "obls": []}
    if r.error: return d
    if not r.obls:
        d["error"] = "no obligations generated"
        return d
    d["vacuity"] = solve.satisfiable(r.pre, r.axioms, 4000) if r.pre else "sat"
    t0 = time.time()
    solve.discharge([(o, r.axioms) for o in r.obls], ms=ms, workers=2, seed=seed, deadline=deadline)
    hard = [o for o in r.obls if o.result == "unknown"]
    if 0 < len(hard) <= 6 and time.time() + 30 < deadline:      # a busy machine, most likely: once more with more time
        solve.discharge([(o, r.axioms) for o in hard], ms=ms, workers=3, seed=seed + 13, deadline=deadline, attempt=solve.insist)
    d["solve_s"] = round(time.time() - t0, 2)
    for o in r.obls:
        d["obls"].append({"name": o.name, "kind": o.kind, "result": o.result, "by": o.backend, "s": round(o.secs, 3), "taint": list(o.taint), "model": o.model if o.result != "unsat" else ""})
    return d


def prove(pid, mods, seed, tier, budget):
    """every contract of the property, each in its own process"""
    from pyvc.registry import REG
    for m in mods: importlib.import_module("contracts." + m)
    cts = [c for c in REG.contracts if pid == c.prop or (isinstance(c.prop, (tuple, list)) and pid in c.prop)]
    cts = [c for c in cts if not c.trusted]
    names = [c.name for c in cts]
    deadline = time.time() + budget
    ms = 12000 if tier == "quick" else 40000
    pend, running, res = list(cts), {}, {}
    while pend or running:
        while pend and len(running) < 6 and time.time() < deadline:
            ct = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    try: d = prove_one(ct, seed, deadline, ms)
                    except BaseException as e: d = {"contract": ct.name, "target": ct.target, "error": f"internal: {type(e).__name__}: {e}", "obls": []}
                    data = json.dumps(d).encode()
                    while data: data = data[os.write(w, data):]
                finally: os._exit(0)
            os.close(w)
            running[r] = (ct, p, [])
        if not running: break
        rd, _, _ = select.select(list(running), [], [], 1)
        for r in rd:
            ct, p, buf = running[r]
            x = os.read(r, 1 << 16)
            if x:
                buf.append(x)
                continue
            os.close(r)
            os.waitpid(p, 0)
            del running[r]
            try: res[ct.name] = json.loads(b"".join(buf))
            except ValueError: res[ct.name] = {"contract": ct.name, "target": ct.target, "error": "generator process died", "obls": []}
        if time.time() > deadline + 40:
            for r, (ct, p, _) in list(running.items()):
                try: os.killpg(p, signal.SIGKILL)
                except OSError: pass
                os.waitpid(p, 0)
                os.close(r)
                res[ct.name] = {"contract": ct.name, "target": ct.target, "error": "time budget", "obls": []}
            running = {}
            break
    for ct in pend: res[ct.name] = {"contract": ct.name, "target": ct.target, "error": "time budget", "obls": []}
    return [res[n] for n in names]


# -------------------------------------------------------------- reporting
def load_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return {}
    return {f["key"]: f for f in json.load(open(p)) if f["property"] == pid and f["kind"] == "finding"}


def write_replay(pid, n, data):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    p = os.path.join(HERE, "replay", f"{pid}-{n}.json")
    with open(p, "w") as f: json.dump(data, f, indent=1, default=str)
    return p


def do_replay(path):
    d = json.load(open(path))
    if d.get("kind") != "case":
        log(json.dumps(d, indent=1))
        return 0
    for m in PROPS[d["property"]]["harness"]: importlib.import_module("harness." + m)
    l = next(l for l in core.LAWS if l.name == d["law"] and l.pid == d["property"])
    st, msg, fd = core.run_case(l, d["case"])
    log(f"{d['property']} {d['law']}: {st} {msg}")
    return 1 if st == "broken" else 0


def main():
    if sys.argv[1] == "--replay": return do_replay(sys.argv[2])
    pid = sys.argv[1]
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    quick = tier == "quick"
    # ---- concrete
    for m in spec["harness"]: importlib.import_module("harness." + m)
    laws = [l for l in core.LAWS if l.pid == pid]
    # ---- proof
    proofs = prove(pid, spec["contracts"], seed, tier, 240 if quick else 1500) if spec["contracts"] else []
    obls = [(d, o) for d in proofs for o in d["obls"]]
    failed = [(d, o) for d, o in obls if o["result"] != "unsat"]
    undecided = [d for d in proofs if d["error"]]
    refuted = [(d, o) for d, o in failed if o["result"] == "sat"]
    suspicious = bool(failed or undecided)
    h = core.run_laws(laws, seed, tier, budget=(120 if quick else 2400), mult=(8 if quick else 2))
    if suspicious and not [f for f in h["fails"] if not f["finding"]]:
        h2 = core.run_laws(laws, seed + 7919, tier, budget=(150 if quick else 1200), mult=(24 if quick else 4))
        for k in ("evaluations", "trivial", "distinct"): h[k] += h2[k]
        for k in ("fails", "missing", "errors"): h[k] += h2[k]
    findings = load_findings(pid)
    known, new = {}, []
    for f in h["fails"]:
        if f["finding"] and f["finding"] in findings: known.setdefault(f["finding"], f)
        else: new.append(f)
    for k, f in sorted(known.items()): log(f"KNOWN-FINDING: property={pid} {findings[k]['what']}")
    viol = 0
    seen = set()
    for f in new:
        if f["law"] in seen or viol >= 5: continue
        seen.add(f["law"])
        p = write_replay(pid, viol, {"kind": "case", "property": pid, "law": f["law"], "case": f["case"], "message": f["message"],
                                     "failed_obligations": [o["name"] for _, o in failed][:20],
                                     "how": f"python3 /verif/check.py --replay <this file>"})
        log(f"  {f['law']}: {f['message'][:600]}")
        log(f"VIOLATION property={pid} replay={p}")
        viol += 1
    if not viol:
        hard = [(d, o) for d, o in refuted if not o["taint"] and not d["loops"] and d.get("vacuity") != "unsat"]
        if hard:
            p = write_replay(pid, 0, {"kind": "obligation", "property": pid, "obligation": hard[0][1]["name"], "target": hard[0][0]["target"],
                                      "all": [o["name"] for _, o in hard], "verifier": f"z3: sat (the negated obligation has a model)", "model": hard[0][1]["model"]})
            for _, o in hard[:5]: log(f"  obligation refuted: {o['name']}")
            log(f"VIOLATION property={pid} replay={p} no-failing-input-found")
            viol += 1
    for d in undecided: log(f"  note: {d['contract']}: not decided by proof on this tree ({d['error']}); bounded run-time check decides")
    for d, o in failed[:10]: log(f"  note: obligation {o['name']}: {o['result']} {'(abstracted: ' + ', '.join(o['taint'][:4]) + ')' if o['taint'] else ''}")
    for m in h["missing"][:10]: log(f"  note: {m}")
    for m in h["errors"][:10]: log(f"  note: {m}")
    vac = [d["contract"] for d in proofs if d.get("vacuity") == "unsat"]
    for c in vac: log(f"  note: precondition of {c} is unsatisfiable: nothing proved")
    # ---- evidence
    by = {}
    for _, o in obls:
        if o["result"] == "unsat": by[o["by"]] = by.get(o["by"], 0) + 1
    ndis = sum(1 for d, o in obls if o["result"] == "unsat" and d["contract"] not in vac)
    full = bool(obls) and ndis == len(obls) and not undecided and not vac
    level = spec["level"] if spec["level"] != "proof" or full else "exploration"
    trusted = sorted({m for d in proofs for m in d.get("models", [])})
    cov = {
        "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"],
        "rule": "cases generated per law from VERIF_SEED plus fixed corner cases, run on the real code; trivial ones (precondition false or nothing to check) and duplicates are not counted as distinct_nontrivial; this part is bounded, not proof",
        "samples": h["samples"][:6], "laws": h["per_law"], "laws_not_run": h["missing"], "laws_cut_by_time": h["cut"], "law_errors": h["errors"],
        "functions_under_contract": [{"target": d["target"], "contract": d["contract"], "obligations": len(d["obls"]),
                                      "discharged": sum(o["result"] == "unsat" for o in d["obls"]), "paths": d.get("paths"),
                                      "undecided": d["error"], "precondition": d.get("vacuity"), "inlined_callees": d.get("inlined", []),
                                      "callee_contracts_used": d.get("assumed_contracts", []), "solver_s": d.get("solve_s")} for d in proofs],
        "obligations": len(obls), "discharged": ndis, "discharged_by": by,
        "solver_s": round(sum(o["s"] for _, o in obls), 2),
        "not_discharged": [{"name": o["name"], "result": o["result"], "abstracted": o["taint"]} for _, o in failed][:50],
        "checker_cmd": f"python3 /verif/check.py {pid}",
        "trusted_base": ["pyvc: the verification-condition generator in /verif/pyvc (Python semantics of the supported subset)",
                         "z3 " + __import__("z3").get_version_string() + ", cvc5 1.1.2", "floats as mathematical reals, ints unbounded"] + [f"model of {m}" for m in trusted] + spec.get("trusted", []),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    log(f"{pid}: {ndis}/{len(obls)} obligations discharged over {len(proofs)} functions; {h['evaluations']} cases ({h['distinct']} distinct non-trivial), "
        f"{len(known)} known findings, {viol} violations, {ev['wall_s']} s")
    if viol: return 1
    if not obls and not h["evaluations"]:
        log("undecided: nothing could be checked")
        return 2
    return 0


if __name__ == "__main__": sys.exit(main())
