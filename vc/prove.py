"""vc.prove <ID>: regenerate and discharge the obligations of one property from /repo's source."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def tools_path():
    """expose z3 and mpmath (pure Python and shared library) of the tool environment"""
    d = tempfile.mkdtemp(prefix="geec_vc_")
    for n in ("z3", "mpmath"):
        os.symlink(os.path.join(TOOLS, n), os.path.join(d, n))
    sys.path.append(d)
    return d


def run_one(arg):
    pid, idx, tier = arg
    t0 = time.time()
    from contracts import base, load_all

    load_all()
    fn = base.REG[pid][idx]
    out = {"scenario": fn.__name__, "obligations": [], "functions": [], "assumptions": [], "trusted": [],
           "unsupported": [], "paths": 0, "wit": 0, "z3_time": 0.0, "z3_calls": 0, "wall": 0.0, "log": [], "suspects": []}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        res = fn(pid, tier)
    except BaseException as e:
        out["unsupported"].append(f"{fn.__name__}: {type(e).__name__}: {str(e)[:300]}")
        out["log"].append(traceback.format_exc()[-1500:])
        out["wall"] = time.time() - t0
        return out
    from vc import terms as T

    out["functions"], out["assumptions"], out["trusted"] = res.functions, res.assumptions, res.trusted
    for en in res.engines:
        out["paths"] += en.npaths
        out["wit"] += en.nwit
        out["z3_time"] += en.z3_time
        out["z3_calls"] += en.z3_calls
        out["assumptions"] += [a for a in en.assumed if a]
        out["log"] += en.log[:2]
        for u in en.unsup:
            out["unsupported"].append(f"{en.name}: {u}"[:400])
        for why, env in en.suspects[:8]:
            mk_case = getattr(en, "case_of", None)
            if mk_case:
                try:
                    c = mk_case(env)
                    out["suspects"] += [{"what": f"{en.name}: {why}"[:300], "case": x} for x in (c if isinstance(c, list) else [c] if c else [])]
                except Exception as e:
                    out["log"].append("case: " + repr(e)[:300])
        for o in en.obls.values():
            cases = []
            for r in o.refuted[:4]:
                mk_case = getattr(en, "case_of", None)
                if mk_case and r["witness"] is not None:
                    try:
                        c = mk_case(r["witness"])
                        cases += c if isinstance(c, list) else ([c] if c else [])
                    except Exception as e:
                        out["log"].append("case: " + repr(e)[:300])
            st = o.status()
            out["obligations"].append({
                "name": f"{en.name}: {o.name}", "fn": en.fn, "status": st, "n": o.n, "proved": o.proved,
                "backends": o.backends, "time_s": round(o.time, 3),
                "why": (o.refuted[0]["why"] if o.refuted else (o.undecided[0] if o.undecided else "")),
                "path": (o.refuted[0]["path"] if o.refuted else []), "cases": cases[:6]})
    out["stats"] = dict(T.STATS)
    out["wall"] = time.time() - t0
    return out


STOP = []


def stop(*_):
    """asked to hand over what is proved so far"""
    if os.getpid() != STOP[0]:
        os._exit(1)  # a worker that has not begun yet
    STOP.append(True)


def worker():
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


def prove(pid, tier, budget, jobs=8):
    from contracts import base, load_all

    load_all()
    n = len(base.REG.get(pid, []))
    t0 = time.time()
    outs = []
    with mp.Pool(min(jobs, max(1, n)), maxtasksperchild=1, initializer=worker) as pool:
        hs = [pool.apply_async(run_one, ((pid, i, tier),)) for i in sorted(range(n), key=lambda i: -base.REG[pid][i].weight)]
        STOP[:] = [os.getpid()]
        signal.signal(signal.SIGTERM, stop)
        for h in hs:
            while not h.ready() and len(STOP) == 1 and time.time() - t0 < budget:
                h.wait(0.5)
            if h.ready():
                outs.append(h.get())
            else:
                outs.append({"scenario": "?", "obligations": [], "functions": [], "assumptions": [], "trusted": [],
                             "unsupported": ["time budget exhausted"], "paths": 0, "wit": 0, "z3_time": 0,
                             "z3_calls": 0, "wall": budget, "log": []})
        pool.terminate()
    return merge(pid, outs, time.time() - t0)


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def spread(lists, n):
    """some of every list"""
    out, i = [], 0
    while len(out) < n and any(i < len(x) for x in lists):
        out += [x[i] for x in lists if i < len(x)]
        i += 1
    return out[:n]


def merge(pid, outs, wall):
    obls = [o for r in outs for o in r["obligations"]]
    be = {}
    for o in obls:
        for k, v in o["backends"].items():
            be[k] = be.get(k, 0) + v
    st = {"exact": 0, "pit": 0, "pit_max_err_log2": -10**9}
    for r in outs:
        s = r.get("stats")
        if s:
            st["exact"] += s["exact"]
            st["pit"] += s["pit"]
            st["pit_max_err_log2"] = max(st["pit_max_err_log2"], s["pit_max_err_log2"])
    return {
        "property": pid, "obligations": obls, "backends": be, "identity_checks": st,
        "functions": uniq([f for r in outs for f in r["functions"]]),
        "assumptions": uniq([f for r in outs for f in r["assumptions"]]),
        "trusted_base": uniq([f for r in outs for f in r["trusted"]]) + TRUST,
        "unsupported": uniq([f for r in outs for f in r["unsupported"]]),
        "suspects": spread([r.get("suspects", []) for r in outs], 60),
        "paths": sum(r["paths"] for r in outs), "witnessed_paths": sum(r["wit"] for r in outs),
        "solver_time_s": round(sum(r["z3_time"] for r in outs), 3), "solver_calls": sum(r["z3_calls"] for r in outs),
        "scenarios": [{"name": r["scenario"], "wall_s": round(r["wall"], 2), "paths": r["paths"]} for r in outs],
        "verifier": "vc (verification condition generator of /verif/vc on the parsed source of /repo/geec); z3, exact polynomial normaliser",
        "wall_s": round(wall, 2), "log": [x for r in outs for x in r["log"]][:6],
    }


TRUST = [
    "CPython 3.11 executes the instrumented syntax tree; the rewrites are listed in vc/loader.py",
    "numpy, math and builtin operations follow their documentation (vc/rt.py, vc/sym.py)",
    "machine arithmetic is treated as exact real arithmetic unless an obligation says otherwise",
    "z3 and the polynomial normaliser of vc/terms.py",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=400)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    d = tools_path()
    try:
        r = prove(a.pid, a.tier, a.budget, a.jobs)
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    if a.out:
        json.dump(r, open(a.out, "w"), default=str)
    if a.v or not a.out:
        for o in r["obligations"]:
            print(f"{o['status']:9} {o['n']:3}/{o['proved']:3} {o['time_s']:7.2f}s {o['backends']} {o['name']} {o['why'][:260]}")
        print("out of reach:", r["unsupported"])
        print({k: r[k] for k in ("paths", "witnessed_paths", "solver_time_s", "solver_calls", "wall_s", "identity_checks", "scenarios")})
        for l in r["log"]:
            print("LOG", l)


if __name__ == "__main__":
    main()
