#!/usr/bin/env python3
"""Self-test of the checks by refactoring: behaviour-preserving rewrites of geec/*.py; no check may raise an alarm.

refactors.py [-j N] [names...]        each entry of refactors*.txt: '### name file', then '<<<' old '===' new '>>>' blocks
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from mutate import PROPS, STABLE  # noqa

ALL = {k: " ".join(sorted(set(v.split()))) for k, v in PROPS.items()}


def load():
    out = []
    cur = None
    txt = "".join(open(os.path.join(HERE, f)).read() for f in sorted(os.listdir(HERE)) if f.startswith("refactors") and f.endswith(".txt"))
    for blk in re.split(r"^### ", txt, flags=re.M)[1:]:
        head, body = blk.split("\n", 1)
        name = head.split()[0]
        edits = []
        for m in re.finditer(r"^<<< (\S+)\n(.*?)^===\n(.*?)^>>>", body, flags=re.M | re.S):
            edits.append((m.group(1), m.group(2), m.group(3)))
        assert edits, name
        out.append((name, edits))
    return out


def work(arg):
    name, edits, props = arg
    d = f"/tmp/rf/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo, ver = d + "/repo", d + "/verif"
    try:
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", repo], check=True)
        shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        files = set()
        for f, old, new in edits:
            p = os.path.join(repo, "geec", f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, ["pattern not found in " + f + ": " + old[:80]]
            open(p, "w").write(s.replace(old, new, 1))
            files.add(f)
        e = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", GEEC_REPO=repo)
        x = d + "/j.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors",
                        "--ignore=tests/test_crs.py", "--ignore=tests/test_geec.py", "-o", "junit_family=xunit2", "--junitxml=" + x],
                       cwd=repo, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        import xml.etree.ElementTree as ET

        ok = {c.get("classname") + "::" + c.get("name") for c in ET.parse(x).iter("testcase") if not list(c)}
        res = []
        if not STABLE <= ok:
            res.append("TESTS FAIL")
        e.pop("PYTHONPATH")
        ps = props or sorted({p for f in files for p in ALL[f].split()})
        for p in ps:
            t0 = time.time()
            r = subprocess.run([sys.executable, "check.py", p], cwd=ver, env=e, capture_output=True, text=True, timeout=1500)
            t = time.time() - t0
            if r.returncode != 0:
                res.append(f"{p}: ALARM rc {r.returncode} {r.stdout[-900:]}")
            elif "out of reach" in r.stdout or "proof process" in r.stdout or "undecided (" in r.stdout:
                res.append(f"{p}: bounded {t:.0f}s: " + "\n".join(l[:300] for l in r.stdout.splitlines()[1:4]))
            elif t > 100:
                res.append(f"{p}: slow {t:.0f} s")
        return name, res
    except Exception as ex:
        return name, ["error " + repr(ex)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 4
    if a and a[0] == "-j":
        j = int(a[1])
        a = a[2:]
    props = [x for x in a if re.fullmatch(r"C\d\d", x)]
    names = [x for x in a if x not in props]
    jobs = [(n, e, props) for n, e in load() if not names or any(n.startswith(x) for x in names)]
    with mp.Pool(j) as pool:
        for n, res in pool.imap_unordered(work, jobs):
            print("==", n, "quiet" if not res else "")
            for r in res:
                print("    " + r)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
