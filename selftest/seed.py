#!/usr/bin/python3
"""Makes and validates planted bugs.

selftest/seeds/<id>.py defines PROPERTY, EDITS [(file, old, new)], NEEDS,
BREAKS and DEMO (C++ source of a program that exits 0 if the property holds;
or a shell script if it starts with #!).  Every bug is applied to a scratch
copy that is bind mounted over /repo (in a user namespace), built, tested and
demonstrated; it is kept in /verif/seeded/<id> if it does what it should.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")

DEMO_SH = """#!/bin/bash
# Builds and runs demo.cpp against the library and models built from /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
B=/repo/_build
g++ -std=c++20 -O1 -g -pthread -DPODIO_JSON_OUTPUT %(flags)s -I/repo/include -I$B/include -I$B/models/main -I/repo/src "$D/demo.cpp" \\
  -o "$T/demo" -L$B -lTestDataModel -lpodio -Wl,-rpath,$B || exit 3
cd "$T" && timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(copy, cmd):
    """run cmd with copy mounted over /repo"""
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (copy, cmd))


def make(name):
    ns = {}
    with open(os.path.join(HERE, "seeds", name + ".py")) as f:
        exec(f.read(), ns)
    d = os.path.join(SEEDED, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seedwt.")
    try:
        diff = ""
        for path in sorted({e[0] for e in ns["EDITS"]}):
            with open(os.path.join("/repo", path)) as f:
                old = txt = f.read()
            for p, a, b in ns["EDITS"]:
                if p == path:
                    if txt.count(a) != 1:
                        raise SystemExit("%s: %d matches of %r in %s" % (name, txt.count(a), a, path))
                    txt = txt.replace(a, b)
            for s, t in (("a", old), ("b", txt)):
                os.makedirs(os.path.dirname(os.path.join(w, s, path)), exist_ok=True)
                with open(os.path.join(w, s, path), "w") as f:
                    f.write(t)
        diff = sh("git diff --no-index --no-prefix a b", cwd=w).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
    finally:
        shutil.rmtree(w)
    if ns["DEMO"].startswith("#!"):
        demo = ns["DEMO"]
    else:
        demo = DEMO_SH % {"flags": ns.get("FLAGS", "")}
        with open(os.path.join(d, "demo.cpp"), "w") as f:
            f.write(ns["DEMO"])
    for n, t in ns.get("FILES", {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, f, indent=1)
    return ns


def validate(name, copy, base):
    d = os.path.join(SEEDED, name)
    if not os.path.exists(os.path.join(copy, "_build")):
        sh("cp -a /repo %s" % copy)
    # the /verif folder of the bug must not be needed
    loc = tempfile.mkdtemp(prefix="seeddemo.")
    sh("cp -a %s/. %s/" % (d, loc))
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=copy)
    if base:
        r = inside(copy, "bash /opt/vp/build.sh")
        if r.returncode:
            return "base does not build: " + (r.stdout + r.stderr)[-1500:]
        r = inside(copy, "bash %s/demo.sh" % loc)
        if r.returncode:
            return "demo fails on the unchanged tree: %d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
    r = sh("git apply %s/patch.diff" % d, cwd=copy)
    if r.returncode:
        return "does not apply: " + r.stderr
    out = os.path.join(loc, "out.json")
    r = inside(copy, "bash /opt/vp/test.sh %s" % out)
    try:
        res = json.load(open(out))
    except Exception:
        return "no test results: " + (r.stdout + r.stderr)[-1500:]
    want = json.load(open("/opt/vp/BASELINE.json"))
    stable = want.get("stable_pass") or want.get("passed") or want.get("stable") or []
    lost = sorted(set(stable) - set(res["passed"]))
    if lost or not res["passed"]:
        return "tests: %d pass, lost %s %s" % (len(res["passed"]), lost[:5], (r.stdout + r.stderr)[-2500:] if not res["passed"] else "")
    r = inside(copy, "bash %s/demo.sh" % loc)
    if r.returncode == 0:
        return "demo does not fail with the patch"
    if r.returncode == 3:
        return "demo does not build with the patch: " + (r.stdout + r.stderr)[-1500:]
    print("%s: ok (%d) %s" % (name, r.returncode, (r.stdout + r.stderr).strip()[-200:]), flush=True)
    sh("git checkout -q -- .", cwd=copy)
    return None


def main(argv):
    copy = "/tmp/seedrepo"
    base, names = True, []
    for a in argv:
        if a.startswith("--copy="):
            copy = a[7:]
        elif a == "--nobase":
            base = False
        else:
            names.append(a)
    bad = 0
    # first all demonstrations on the unchanged tree
    for n in names:
        make(n)
    if base:
        if not os.path.exists(os.path.join(copy, "_build")):
            sh("cp -a /repo %s" % copy)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=copy)
        r = inside(copy, "bash /opt/vp/build.sh")
        if r.returncode:
            raise SystemExit("base does not build: " + (r.stdout + r.stderr)[-1500:])
        for n in list(names):
            loc = tempfile.mkdtemp(prefix="seeddemo.")
            sh("cp -a %s/. %s/" % (os.path.join(SEEDED, n), loc))
            r = inside(copy, "bash %s/demo.sh" % loc)
            if r.returncode:
                print("%s: demo fails on the unchanged tree: %d %s" % (n, r.returncode, (r.stdout + r.stderr)[-1500:]), flush=True)
                names.remove(n)
                bad += 1
    for n in names:
        why = validate(n, copy, False)
        if why:
            bad += 1
            print("%s: NOT USABLE: %s" % (n, why), flush=True)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
