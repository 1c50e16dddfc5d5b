#!/usr/bin/python3
"""Runs the check of each planted bug on a copy of /repo with the bug in it
(bind mounted over /repo): caught.py [-p PROPERTY...] [id...]"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    props = []
    if argv[:1] == ["-p"]:
        props = argv[1].split(",")
        argv = argv[2:]
    names = argv or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    bad = 0
    for n in names:
        d = os.path.join(VERIF, "seeded", n)
        with open(os.path.join(d, "meta.json")) as f:
            pid = json.load(f)["property"]
        w = tempfile.mkdtemp(prefix="caught.")
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (w, w, d),
                           shell=True, check=True)
            for p in props or [pid]:
                cmd = "mount --bind %s /repo && cd %s && VP_DEV_CACHE=%s /usr/bin/python3 run.py %s" % (w, VERIF, w + ".cache", p)
                os.makedirs(w + ".cache", exist_ok=True)
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
                hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
                if p == pid and not hit:
                    bad += 1
                out = r.stdout.strip().splitlines()
                print("%-28s %s %s: %s" % (n, p, "caught" if hit else "MISSED (%d)" % r.returncode if p == pid else "quiet",
                                           out[0][:200] if out else r.stderr[-300:]), flush=True)
        finally:
            shutil.rmtree(w)
            shutil.rmtree(w + ".cache", ignore_errors=True)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
