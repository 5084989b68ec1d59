#!/usr/bin/env python3
"""check.py <ID>: decide one property on /repo's current working tree.

1. the proof: contracts/<ID> is run by vc.prove on the source of /repo (obligations regenerated
   from that source on every run);
2. the replay: directed inputs, and the counterexamples of failed obligations, are run through the
   real code.
Exit 0: every obligation was discharged, or what is outside the verifier's reach passed its bounded
stand-in.  Exit 1: VIOLATION line.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("GEEC_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONHASHSEED="0", GEEC_REPO=REPO, NUMBA_DISABLE_PERFORMANCE_WARNINGS="1")
    e.pop("PYTHONPATH", None)
    return e


def findings(pid):
    """known findings: lines 'known: property=<id> key=<key> <text>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=" + pid + " "):
                out.append(l[len("known: property=" + pid + " "):].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, "evidence", "replay")):
        if f.startswith(pid + "_"):
            os.remove(os.path.join(HERE, "evidence", "replay", f))
    tmp = tempfile.mkdtemp(prefix="geec_check_")
    try:
        code = decide(pid, tier, a.seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def start(cmd, log):
    return subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=open(log, "w"), stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, limit):
    try:
        return p.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        p.terminate()  # the proof hands over the obligations it has
        try:
            return p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
        p.wait()
        return None


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def tail(path, n=2500):
    try:
        return open(path, errors="replace").read()[-n:]
    except Exception:
        return ""


def decide(pid, tier, seed, tmp, t0):
    proof_f, replay_f = os.path.join(tmp, "proof.json"), os.path.join(tmp, "replay.json")
    plog, rlog = os.path.join(tmp, "proof.log"), os.path.join(tmp, "replay.log")
    budget = 380 if tier == "quick" else 2400
    pp = start([PY, "-m", "vc.prove", pid, "--tier", tier, "--out", proof_f, "--budget", str(budget)], plog)
    rp = start([PY, "replay/run.py", pid, "--tier", tier, "--seed", str(seed), "--out", replay_f], rlog)
    rrc = finish(rp, 400 if tier == "quick" else 3000)
    rep = load(replay_f)
    # a failing input of the real code settles the verdict: the proof only gets time to name the obligation
    prc = finish(pp, min(75 if rep and rep["failures"] else budget + 60, budget + 60 - (time.time() - t0)))
    proof = load(proof_f)
    if rep is None:
        print(f"{pid}: replay did not finish (rc={rrc})\n" + tail(rlog))
        return 3
    if proof is None:
        proof = {"obligations": [], "error": f"proof process ended with {prc}: " + tail(plog, 800)}
    obls = proof.get("obligations", [])
    if not obls and not proof.get("error"):
        proof["error"] = "vacuous: the contracts produced no obligation on this tree; the bounded stand-in alone decided"
    refuted = [o for o in obls if o["status"] == "refuted"]
    undec = [o for o in obls if o["status"] == "undecided"]
    n = sum(o["n"] for o in obls)
    done = sum(o["proved"] for o in obls)

    viol = []
    for f in rep["failures"][:3]:
        viol.append(dump(pid, len(viol), {"property": pid, "kind": "directed input", "case": f["case"],
                                          "message": f["message"], "how": f"/opt/venv/bin/python replay/run.py {pid} --case <this file>"}))
    # counterexamples of failed obligations, on the real code
    tried = 0
    if refuted and not viol:
        cases = []
        for k in range(6):  # the first of every obligation, then the second, ...
            cases += [(o, o["cases"][k]) for o in refuted if len(o.get("cases") or []) > k]
        cases = cases[:240]
        tried = len(cases)
        if cases:
            cf, log = os.path.join(tmp, "cases.json"), os.path.join(tmp, "cases.log")
            json.dump({"cases": [c for _, c in cases]}, open(cf, "w"), default=str)
            if finish(start([PY, "replay/run.py", pid, "--case", cf], log), 170) == 1:
                r = json.loads(tail(log, 10**7).strip().splitlines()[-1])
                o = cases[r["index"]][0]
                viol.append(dump(pid, 0, {"property": pid, "kind": "counterexample of obligation " + o["name"],
                                          "case": r["case"], "message": r["message"], "obligation": o}))
    if refuted and not viol:
        # search harder on the real code before reporting without an input
        f2 = os.path.join(tmp, "replay2.json")
        finish(start([PY, "replay/run.py", pid, "--tier", "thorough", "--seed", str(seed + 1), "--out", f2,
                      "--limit", "100"], os.path.join(tmp, "r2.log")), 160)
        r2 = load(f2)
        for f in (r2 or {}).get("failures", [])[:1]:
            viol.append(dump(pid, len(viol), {"property": pid, "kind": "directed input", "case": f["case"],
                                              "message": f["message"], "obligations": [o["name"] for o in refuted]}))
    more = 0
    if not viol and not refuted and (undec or proof.get("unsupported") or proof.get("error")):
        # what the verifier cannot decide: the witnesses of the undecided paths, then a deeper search, on the real code
        sus = proof.get("suspects", [])
        if sus:
            cf, log = os.path.join(tmp, "cases.json"), os.path.join(tmp, "cases.log")
            json.dump({"cases": [x["case"] for x in sus]}, open(cf, "w"), default=str)
            more += len(sus)
            if finish(start([PY, "replay/run.py", pid, "--case", cf], log), 120) == 1:
                r = json.loads(tail(log, 10**7).strip().splitlines()[-1])
                viol.append(dump(pid, 0, {"property": pid, "kind": "witness of an undecided path: " + sus[r["index"]]["what"],
                                          "case": r["case"], "message": r["message"]}))
        if not viol:
            f2 = os.path.join(tmp, "replay3.json")
            lim = 100 if tier == "quick" else 600
            finish(start([PY, "replay/run.py", pid, "--tier", "thorough", "--seed", str(seed + 2), "--out", f2, "--limit", str(lim)],
                         os.path.join(tmp, "r3.log")), lim + 60)
            r2 = load(f2)
            more += (r2 or {}).get("evaluations", 0)
            for f in (r2 or {}).get("failures", [])[:1]:
                viol.append(dump(pid, 0, {"property": pid, "kind": "directed input (deeper search)", "case": f["case"], "message": f["message"]}))
    lines = []
    if viol:
        lines = [f"VIOLATION property={pid} replay={p}" for p in viol[:1]]
    elif refuted:
        p = dump(pid, 0, {"property": pid, "kind": "failed obligation", "obligations": refuted,
                          "note": "no failing input found on the real code", "verifier": proof.get("verifier")})
        lines = [f"VIOLATION property={pid} replay={p} no-failing-input-found"]

    evidence(pid, tier, seed, proof, rep, obls, n, done, lines, t0, tried, more)
    for k in findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid} {tier}: {n} obligations, {done} discharged, {len(refuted)} refuted, {len(undec)} undecided; "
          f"replay: {rep['evaluations']} inputs, {rep['nfail']} failures; {time.time() - t0:.1f} s")
    for o in refuted[:8]:
        print("  refuted:", o["name"], "|", str(o.get("why"))[:300])
    for o in undec[:8]:
        print("  undecided (bounded stand-in):", o["name"], "|", str(o.get("why"))[:200])
    for u in proof.get("unsupported", [])[:8]:
        print("  out of reach (bounded stand-in):", u)
    if proof.get("error"):
        print("  proof process:", proof["error"][:600])
    for l in lines:
        print(l)
    return 1 if lines else 0


def dump(pid, k, rec):
    p = os.path.join(HERE, "evidence", "replay", f"{pid}_{k}.json")
    json.dump(rec, open(p, "w"), indent=1, default=str)
    return p


def evidence(pid, tier, seed, proof, rep, obls, n, done, lines, t0, tried, more):
    cov = {
        "obligations": n, "discharged": done,
        "checker_cmd": f"/opt/venv/bin/python -m vc.prove {pid} --tier {tier}",
        "trusted_base": proof.get("trusted_base", []),
        "functions_under_contract": proof.get("functions", []),
        "named_obligations": [{k: o.get(k) for k in ("name", "fn", "status", "n", "proved", "backends", "time_s")} for o in obls],
        "backends": proof.get("backends", {}), "solver_time_s": proof.get("solver_time_s", 0),
        "paths": proof.get("paths", 0), "witnessed_paths": proof.get("witnessed_paths", 0),
        "out_of_reach_bounded": proof.get("unsupported", []) + ([proof["error"]] if proof.get("error") else []),
        "bounded_replay": {"evaluations": rep["evaluations"], "distinct": rep["distinct"], "skipped": rep["skipped"],
                           "skip_reasons": rep["skip_reasons"], "failures": rep["nfail"],
                           "counterexamples_replayed": tried, "replayed_for_undecided_paths": more, "samples": rep["samples"][:1]},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": proof.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(lines)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
