#!/usr/bin/env python3
"""Development aid (no registered command uses it): applies each mutant or
behaviour preserving edit to a scratch copy of /repo and runs checks on it.

selftest/run.py [-k substring] [-j jobs]"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.environ.get("SELFTEST_SRC", "/repo")
sys.path.insert(0, HERE)
from mutants import BENIGN, MUTANTS  # noqa

ALL = sorted(f[:-3].upper() for f in os.listdir(VERIF + "/vp/checks") if f.startswith("p") and f.endswith(".py"))


def scratch(edits):
    d = tempfile.mkdtemp(prefix="vpmut_")
    for s in ("include", "src", "python", "cmake", "tests", "schemas", "tools"):
        if os.path.isdir(SRC + "/" + s):
            shutil.copytree(SRC + "/" + s, d + "/" + s, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    for f in os.listdir(SRC):
        if os.path.isfile(SRC + "/" + f):
            shutil.copy(SRC + "/" + f, d)
    for f, old, new in edits:
        p = d + "/" + f
        s = open(p).read()
        if old not in s:
            shutil.rmtree(d)
            return None, "pattern not found in " + f + ": " + old
        s = s.replace(old, new) if old.startswith("//ALL//") else s.replace(old, new, 1)
        open(p, "w").write(s)
    return d, None


def one(job):
    kind, name, props, edits = job
    d, err = scratch(edits)
    if err:
        return name, "STALE", err
    try:
        res, txt = [], ""
        for p in props:
            env = dict(os.environ, PODIO_REPO=d)
            env["VP_DEV_CACHE"] = d + "/.irc"
            os.makedirs(d + "/.irc", exist_ok=True)
            r = subprocess.run([sys.executable, VERIF + "/run.py", p], env=env, capture_output=True, text=True)
            res.append(r.returncode)
            txt += "\n".join((r.stdout + r.stderr).splitlines()[-4:])[:900] + "\n"
        if kind == "mutant":
            return name, "ok" if all(x == 1 for x in res) else "MISSED %s %s" % (props, res), txt
        return name, "ok" if all(x == 0 for x in res) else "ALARM %s" % [(p, x) for p, x in zip(props, res) if x], txt
    finally:
        shutil.rmtree(d)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-k", default="")
    a.add_argument("-j", type=int, default=4)
    a.add_argument("-v", action="store_true")
    a.add_argument("-p", default="", help="only these properties")
    A = a.parse_args()
    only = set(A.p.upper().split(",")) if A.p else None
    jobs = []
    for name, props, edits in MUTANTS:
        ps = [p for p in props.split(",") if only is None or p in only]
        if A.k in name and ps:
            jobs.append(("mutant", name, ps, edits))
    for name, props, edits in BENIGN:
        ps = [p for p in (ALL if props == "*" else props.split(",")) if only is None or p in only]
        if A.k in name and ps:
            jobs.append(("benign", name, ps, edits))
    bad = 0
    with ThreadPoolExecutor(A.j) as ex:
        for name, verdict, txt in ex.map(one, jobs):
            print("%-40s %s" % (name, verdict))
            if verdict != "ok" or A.v:
                print("    " + txt.replace("\n", "\n    "))
                bad += verdict != "ok"
    print("%d jobs, %d unexpected" % (len(jobs), bad))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
