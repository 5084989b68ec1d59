"""Replay driver: run.py <ID> --tier quick --seed 1 --out FILE   (real code of /repo)
              or run.py <ID> --case FILE                         (one recorded case)
Writes a JSON report {evaluations, failures:[{case, message}], samples, wall_s}."""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def table():
    import geo
    import conf

    t = dict(geo.TABLE)
    t.update(conf.TABLE)
    return t


def one(arg):
    pid, case = arg
    import common

    run = table()[pid][1]
    def late(*a):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(HANG)
    try:
        run(case)
        return None
    except Late:
        return {"case": case, "message": f"the computation did not end within {HANG} s", "hang": True}
    except common.Violation as e:
        return {"case": case, "message": str(e)[:1500]}
    except Exception as e:  # an exception of the code under test where none is expected
        tb = traceback.extract_tb(e.__traceback__)
        # names that the replay itself needs from the package (renamed by a refactoring) are not
        # behaviour: an AttributeError raised directly in the replay files counts as "no answer"
        last = tb[-1].filename if tb else ""
        if isinstance(e, (AttributeError, ImportError)) and os.path.dirname(os.path.abspath(__file__)) in last:
            return {"skip": f"{type(e).__name__}: {e}"}
        return {"case": case, "message": f"unexpected {type(e).__name__}: {e} ({last}:{tb[-1].lineno if tb else 0})"}
    finally:
        signal.alarm(0)


HANG = 150


class Late(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=float, default=0, help="stop after this many seconds")
    a = ap.parse_args()
    if a.case:
        rec = json.load(open(a.case))
        if "cases" in rec:  # several: the first failing one is reported
            t0 = time.time()
            with mp.Pool(min(a.jobs, max(1, len(rec["cases"])))) as pool:
                for i, r in enumerate(pool.imap(one, [(a.pid, c) for c in rec["cases"]])):
                    if r and "message" in r:
                        print(json.dumps(dict(r, index=i), default=str))
                        pool.terminate()
                        sys.exit(1)
            sys.exit(0)
        r = one((a.pid, rec["case"] if "case" in rec else rec))
        print(json.dumps(r, indent=1))
        sys.exit(1 if r and "message" in r else 0)
    import numpy as np

    t0 = time.time()
    gen = table()[a.pid][0]
    rng = np.random.default_rng([a.seed, int(a.pid[1:])])
    cases = list(gen(rng, a.tier))
    fails, skips, done = [], [], 0
    with mp.Pool(min(a.jobs, max(1, len(cases)))) as pool:
        for r in pool.imap(one, [(a.pid, c) for c in cases], chunksize=2):
            done += 1
            if r and "skip" in r:
                skips.append(r["skip"])
            elif r:
                fails.append(r)
            if (r and r.get("hang")) or a.limit and (fails or time.time() - t0 > a.limit):
                pool.terminate()
                break
    rep = {"property": a.pid, "evaluations": done, "failures": fails[:5], "nfail": len(fails),
           "skipped": len(skips), "skip_reasons": sorted(set(skips))[:3],
           "distinct": len({json.dumps(c, sort_keys=True, default=str) for c in cases}),
           "samples": cases[:2], "wall_s": time.time() - t0}
    s = json.dumps(rep, default=str)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s[:3000])


if __name__ == "__main__":
    main()
