"""Front end: regenerates the cover models from the current /repo sources and
dumps the control flow graph IR of everything with the podioir tool.

Nothing below /repo is written; all output goes to a scratch folder which is
removed when the process ends."""
import atexit
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PODIO_REPO", "/repo")
PY = "/usr/bin/python3"
MODELS = os.path.join(VERIF, "models")
MODEL_VERSION = "1.2.3"


class AnalysisError(Exception):
    """The analysis itself could not be done (never a verdict)"""


def scratch():
    if not hasattr(scratch, "dir"):
        scratch.dir = tempfile.mkdtemp(prefix="podio_vp_")
        atexit.register(shutil.rmtree, scratch.dir, True)
    return scratch.dir


def run(cmd, **kw):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("PYTHONPATH", "PYTHONHOME"):
        env.pop(k, None)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)


def ensure_tool():
    r = run([os.path.join(VERIF, "tool", "build.sh")])
    if r.returncode != 0:
        raise AnalysisError("cannot build the IR extractor:\n" + r.stdout[-2000:])
    return os.path.join(VERIF, "build", "podioir")


def version_header():
    inc = os.path.join(scratch(), "inc", "podio")
    if os.path.isdir(inc):
        return os.path.dirname(inc)
    os.makedirs(inc)
    txt = open(os.path.join(REPO, "podioVersion.in.h")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for part in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"_VERSION_%s +([0-9]+)" % part, cm)
        txt = txt.replace("@podio_VERSION_%s@" % part, m.group(1) if m else "0")
    with open(os.path.join(inc, "podioVersion.h"), "w") as f:
        f.write(txt)
    return os.path.dirname(inc)


class Model:
    """A generated data model"""

    def __init__(self, name, yaml, upstream=None, args=(), handlers=("ROOT",)):
        self.name, self.yaml, self.upstream, self.args, self.handlers = name, yaml, upstream, list(args), list(handlers)
        self.dir = os.path.join(scratch(), "gen", name)
        self.done = False

    def generate(self):
        if self.done:
            return
        os.makedirs(self.dir, exist_ok=True)
        cmd = [PY, os.path.join(REPO, "python", "podio_class_generator.py"), self.yaml, self.dir, self.name]
        cmd += self.handlers + ["-q"]
        if self.upstream:
            cmd += ["--upstream-edm", "%s:%s" % (self.upstream.name, self.upstream.yaml)]
        cmd += self.args
        r = run(cmd)
        self.log = r.stdout
        if r.returncode != 0 or not os.path.isdir(os.path.join(self.dir, self.name)):
            raise AnalysisError("code generation for %s failed:\n%s" % (self.yaml, r.stdout[-2000:]))
        self.done = True

    def sources(self):
        out = []
        for f in sorted(glob.glob(os.path.join(self.dir, "src", "*.cc"))):
            b = os.path.basename(f)
            if "SIOBlock" in b or b.startswith("Arrow"):
                continue
            out.append(f)
        return out

    def includes(self):
        return [self.dir] + (self.upstream.includes() if self.upstream else [])


def py_includes():
    r = run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"])
    return [r.stdout.strip()]


def flags(incs):
    a = ["-std=c++20", "-DNDEBUG", "-DPODIO_JSON_OUTPUT", "-w", "-I" + os.path.join(REPO, "include"),
         "-I" + os.path.join(REPO, "src"), "-I" + version_header(), "-I" + MODELS]
    return a + ["-I" + i for i in incs + py_includes()]


def core_sources():
    txt = open(os.path.join(REPO, "src", "CMakeLists.txt")).read()
    m = re.search(r"SET\(core_sources([^)]*)\)", txt, re.I)
    if not m:
        raise AnalysisError("core_sources not found in src/CMakeLists.txt")
    return [os.path.join(REPO, "src", s) for s in m.group(1).split()]


class Unit:
    def __init__(self, name, sources, incs, extra=(), headers=()):
        self.name, self.sources, self.incs, self.extra, self.headers = name, sources, incs, list(extra), list(headers)


def _extract(tool, out, tu, incs):
    roots = ",".join([REPO + "/", scratch() + "/", MODELS + "/"])
    r = run([tool, out, roots, tu, "--"] + flags(incs))
    ok = r.returncode == 0 and os.path.exists(out) and os.path.getsize(out) > 0
    return ok, r.stdout + ("\nerror: the analyser was ended by signal %d" % -r.returncode if r.returncode < 0 else "")


def extract(units):
    """Returns the list of IR files of all the units"""
    tool = ensure_tool()
    version_header()
    irdir = os.path.join(scratch(), "ir")
    os.makedirs(irdir, exist_ok=True)
    jobs = []
    for u in units:
        tu = os.path.join(irdir, u.name + ".cc")
        with open(tu, "w") as f:
            for s in u.sources + u.extra:
                f.write('#include "%s"\n' % s)
        jobs.append((u, tu, os.path.join(irdir, u.name + ".json")))
    files = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: _extract(tool, j[2], j[1], j[0].incs), jobs))
        for (u, tu, out), (ok, log) in zip(jobs, res):
            if ok:
                files.append(out)
                continue
            # unity builds can clash, fall back to one file at a time
            sub = []
            for i, s in enumerate(u.sources + u.extra):
                t = os.path.join(irdir, "%s_%d.cc" % (u.name, i))
                with open(t, "w") as f:
                    for h in u.headers if s in u.extra else ():
                        f.write('#include "%s"\n' % h)
                    f.write('#include "%s"\n' % s)
                sub.append((u, t, os.path.join(irdir, "%s_%d.json" % (u.name, i))))
            r2 = list(ex.map(lambda j: _extract(tool, j[2], j[1], j[0].incs), sub))
            for j, (ok2, log2) in zip(sub, r2):
                if ok2:
                    files.append(j[2])
                elif "error:" in log2:
                    raise AnalysisError("cannot analyse %s:\n%s" % (open(j[1]).read(), log2[-3000:]))
    return files


_models = {}


def model(name):
    if name in _models:
        return _models[name]
    if name == "cover":
        m = Model("cover", os.path.join(MODELS, "cover.yaml"), handlers=["ROOT", "SIO", "ARROW"],
                  args=["--datamodel-version", MODEL_VERSION])
    elif name == "ext":
        m = Model("ext", os.path.join(MODELS, "ext.yaml"), upstream=model("cover"),
                  args=["--datamodel-version", MODEL_VERSION])
    else:
        raise AnalysisError("unknown model " + name)
    _models[name] = m
    return m


def unit(name):
    if name == "core":
        # does not need ROOT itself
        fd = os.path.join(REPO, "src", "ROOTFrameData.cc")
        return Unit("core", core_sources() + ([fd] if os.path.exists(fd) else []), [], [os.path.join(MODELS, "core_use.h")])
    m = model(name)
    if m.upstream:
        m.upstream.generate()
    m.generate()
    extra = [os.path.join(MODELS, name + "_use.h")]
    headers = sorted(h for h in glob.glob(os.path.join(m.dir, m.name, "*.h")) if "SIOBlock" not in h and
                     not os.path.basename(h).startswith("Arrow"))
    return Unit(name, m.sources(), m.includes(), extra, headers)


def load(names):
    from .ir import Program
    cache = os.environ.get("VP_DEV_CACHE")  # development only, no check sets it
    if cache:
        import pickle
        p = os.path.join(cache, "_".join(names) + ".pkl")
        if os.path.exists(p):
            with open(p, "rb") as f:
                return pickle.load(f)
    prog = Program(extract([unit(n) for n in names]), scratch())
    if cache:
        with open(p, "wb") as f:
            pickle.dump(prog, f, -1)
    return prog
