"""P23: code generation is reproducible and only rewrites what changed"""
import ast
import os

from ..order import Order, deep, path, PYDIR
from ..py import *
from ..core import AnalysisError

SECTIONS = ("components", "datatypes", "interfaces", "links")
NAME, TEXT, DIR, PKG = ("sym", "name"), ("sym", "content"), ("sym", "install_dir"), ("sym", "package_name")


# ---------------------------------------------------------------- where orders come from
def order(ck):
    od = Order()
    od.run()
    ck.funcs.update("%s:%s" % (f.mod.rel, f.qual) for f in od.all)
    ck.paths += len(od.loops)
    for at, what in sorted(od.sinks):
        w = od.reports.get((at, what))
        ck.ob("no-varying", "%s at %s" % (what, at), w is None, "depends on %s" % w, at)
    used, attrs, where = templates(ck)
    for n in sorted(used):
        for kind in ("item", "attr"):
            v = od.fields.get("%s:%s" % (kind, n))
            if v is None or kind == "attr" and n not in attrs:
                continue
            w = v.why("V", "O", "U") or (v.elem is not None and deep(v.elem)) or path(v)
            ck.ob("ordered-data", "%s of the templates (%s)" % (n, "data" if kind == "item" else "attribute"), w is None,
                  "has an order or a content that depends on %s" % w, where[n])
    for n in json_fields(od):
        v = od.fields.get("attr:" + n)
        w = v and deep(v)
        ck.ob("ordered-data", "%s of the definition that is embedded" % n, not w, "has an order or a content that depends on %s" % w, "")
    return od


def json_fields(od):
    out = set()
    for m, c in od.classes.get("DataModel", []):
        for x in ast.walk(c):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
    if not out:
        raise AnalysisError("the class DataModel is missing")
    return sorted(out)


def templates(ck):
    """what the templates use of their data"""
    import jinja2
    from jinja2 import nodes
    top = os.path.join(PYDIR, "templates")
    used, attrs, where = set(), set(), {}
    n = 0
    for d, sub, files in os.walk(top):
        sub.sort()
        for f in sorted(files):
            if not f.endswith(".jinja2"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            with open(p, encoding="utf-8") as fh:
                try:
                    t = jinja2.Environment().parse(fh.read())
                except jinja2.TemplateSyntaxError as e:
                    raise AnalysisError("%s: %s" % (rel, e))
            n += 1
            for x in t.find_all((nodes.Name, nodes.Getattr, nodes.Getitem, nodes.Filter, nodes.Call)):
                k = None
                if isinstance(x, nodes.Name) and x.ctx == "load":
                    k = x.name
                elif isinstance(x, nodes.Getattr):
                    k = x.attr
                    attrs.add(k)
                elif isinstance(x, nodes.Getitem) and isinstance(x.arg, nodes.Const) and isinstance(x.arg.value, str):
                    k = x.arg.value
                    attrs.add(k)
                elif isinstance(x, nodes.Filter) and x.name in ("random", "pprint") or \
                        isinstance(x, nodes.Call) and isinstance(x.node, nodes.Name) and x.node.name == "lipsum":
                    ck.ob("no-varying", "%s:%d" % (rel, x.lineno), False, "the template uses something that varies", rel)
                if k:
                    used.add(k)
                    where.setdefault(k, "%s:%d" % (rel, x.lineno))
    if n < 10:
        raise AnalysisError("the templates are missing")
    ck.ob("no-varying", "the %d templates" % n, True, "", "")
    return used, attrs, where


# ---------------------------------------------------------------- nothing is left from earlier
MUT = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "remove", "discard", "clear", "sort", "reverse", "appendleft",
       "popitem"}


def state(ck, od):
    for m in od.mods:
        top = {}
        for s in m.tree.body:
            for n in assigned(s):
                top[n] = s
        for f in [x for x in od.all if x.mod is m]:
            local = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
            glob = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
                elif isinstance(x, ast.Global):
                    glob.update(x.names)
            defaults = mutable_defaults(f.node)
            shared = class_state(od, f)
            bad = []
            for x in ast.walk(f.node):
                for t in changed(x):
                    r, depth = t, 0
                    while isinstance(r, (ast.Attribute, ast.Subscript)):
                        if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id in ("self", "cls", f.cls or "") and r.attr in shared:
                            if depth or not isinstance(getattr(r, "ctx", None), ast.Store):
                                bad.append((x, "'%s' of the class" % r.attr))
                        r, depth = r.value, depth + 1
                    if isinstance(r, ast.Name):
                        if r.id in glob or (r.id in top and r.id not in local and (depth or r.id in glob or not isinstance(r.ctx, ast.Store))):
                            bad.append((x, "'%s' of the module" % r.id))
                        elif r.id in defaults and (depth or not isinstance(r.ctx, ast.Store)) and not rebound(f.node, r.id):
                            bad.append((x, "the default value of '%s'" % r.id))
            ck.ob("no-state", "%s:%s" % (m.rel, f.qual), not bad, bad and "changes %s, which later calls see" % bad[0][1],
                  "%s:%d" % (m.rel, bad[0][0].lineno if bad else f.node.lineno))


def assigned(s):
    if isinstance(s, ast.Assign):
        return [t.id for t in s.targets if isinstance(t, ast.Name)]
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        return [s.target.id]
    return []


def rebound(fn, n):
    return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(fn))


def mutable(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque")


def mutable_defaults(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    out = {p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if mutable(d)}
    return out | {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and mutable(d)}


def class_state(od, f):
    """mutable things in the body of the class that no instance has of its own"""
    out = {}
    for m, c in od.classes.get(f.cls or "", []):
        for s in c.body:
            for n in assigned(s):
                if s.value is not None and mutable(s.value):
                    out[n] = s
        for x in ast.walk(c):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                out.pop(x.attr, None)
    return out


def changed(x):
    """what the node changes in place"""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
        return [x.func.value]
    if isinstance(x, (ast.Assign, ast.Delete)):
        return [t for t in x.targets if isinstance(t, (ast.Subscript, ast.Attribute, ast.Name))]
    if isinstance(x, ast.AugAssign):
        return [x.target]
    return []


# ---------------------------------------------------------------- files
TOUCH = {"remove", "unlink", "rmdir", "removedirs", "rename", "renames", "replace", "utime", "truncate", "chmod", "symlink", "link", "rmtree", "copy",
         "copy2", "copyfile", "copytree", "move", "touch", "write_text", "write_bytes", "mkstemp", "symlink_to", "rename_to"}


def writes(fn):
    """the places that change files"""
    out = []
    for x in ast.walk(fn):
        if not isinstance(x, ast.Call):
            continue
        f = x.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        mod = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else None
        if n == "open" and mod in (None, "io", "codecs", "os"):
            m = [k.value for k in x.keywords if k.arg == "mode"] or x.args[1:2]
            if m and not (isinstance(m[0], ast.Constant) and isinstance(m[0].value, str) and not set(m[0].value) & set("wax+")):
                out.append(x)
        elif n in TOUCH and (mod in ("os", "shutil") or n in ("unlink", "touch", "write_text", "write_bytes", "symlink_to", "rmtree")):
            out.append(x)
        elif n in ("NamedTemporaryFile",):
            out.append(x)
    return out


def reach(od):
    """function -> names of the functions of the generator it calls"""
    out = {}
    for f in od.all:
        called = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                if n in od.fns:
                    called.add(n)
        out[f.qual] = called
    return out


def closure(od, calls, targets):
    """names of functions that get to one of the targets"""
    got = set(targets)
    while True:
        new = {f.name for f in od.all if f.name not in got and calls[f.qual] & got}
        if not new:
            return got
        got |= new


class Disk:
    """one file in the output folder: what is known of it, what happens to it"""
    KINDS = {"missing": "does not exist", "same": "has the content already", "other": "has another content", "lines": "differs in the ends of lines only",
             "crlf": "has the content already, which has returns in it", "garbled": "holds something that is not text"}

    def __init__(self, kind):
        self.kind = kind
        self.log = {}

    def hook(self, run, name, args, kw, where):
        ev = run.__dict__.setdefault("disk", [])
        short = name.split(".")[-1]
        if short == "open" and not name.startswith("os."):
            path = args[0]
            mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
            if not (is_c(mode) and isinstance(mode[1], str)):
                raise AnalysisError("a file is opened in a mode that is not known, at %s" % where)
            if name == ".open":
                mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
            m = mode[1]
            if set(m) & set("wax+"):
                ev.append(("open", path, m, kw, where))
            elif self.kind == "missing":
                raise Raised(("exc", "FileNotFoundError", ()), where)
            return ("file", path, C(m), tuple(sorted((k, v) for k, v in kw.items())))
        if short in ("read", "readlines", "read_text", "read_bytes") and args and isinstance(args[0], tuple):
            return self.read(run, short, args, kw, where)
        if short in ("write", "writelines") and args and isinstance(args[0], tuple) and args[0][0] == "file":
            ev.append(("write", args[0], args[1], where))
            return C(None)
        if short in ("write_text", "write_bytes"):
            ev.append(("open", args[0], "wb" if short == "write_bytes" else "w", kw, where))
            ev.append(("write", ("file", args[0], C("wb" if short == "write_bytes" else "w"), tuple(sorted(kw.items()))), args[1], where))
            return C(None)
        if short in ("exists", "isfile", "is_file", "lexists"):
            return C(self.kind != "missing")
        if short in TOUCH and (name.startswith(("os.", "shutil.")) or short in ("unlink", "touch")):
            ev.append(("touch", name, where))
            return None
        return None

    def read(self, run, short, args, kw, where):
        f = args[0]
        binary = short == "read_bytes"
        opts = dict(kw)
        if f[0] == "file":
            binary = "b" in f[2][1]
            opts = dict(f[3])
        elif short in ("read", "readlines"):
            return None
        elif self.kind == "missing":
            raise Raised(("exc", "FileNotFoundError", ()), where)
        run.__dict__.setdefault("disk", []).append(("read", binary, opts, where))
        if self.kind == "garbled" and not binary and not (is_c(opts.get("errors", C(None))) and opts.get("errors", C(None))[1] in ("surrogateescape", "backslashreplace")):
            if is_c(opts.get("errors", C(None))) and opts.get("errors", C(None))[1] not in (None, "strict"):
                return ("sym", "existing")
            raise Raised(("exc", "UnicodeDecodeError", ()), where)
        raw = binary or opts.get("newline", C(None))[1] in ("", "\n") if is_c(opts.get("newline", C(None))) else False
        same = {"same": True, "other": False, "garbled": False, "lines": not raw, "crlf": raw}.get(self.kind)
        if not same:
            return ("sym", "existing")
        return ("call", ".encode", (TEXT, C("utf-8"))) if binary else TEXT


def plain(t):
    """.encode() is the same as .encode("utf-8")"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "call" and t[1] in (".encode", "str.encode", "bytes") and t[2] and len(t[2]) <= 3:
        args = [x for x in t[2] if not (isinstance(x, tuple) and x[0] == "kw")]
        enc = [x[2] for x in t[2] if isinstance(x, tuple) and x[0] == "kw"] + args[1:]
        if not enc or enc[0] in (C("utf-8"), C("utf8"), C("UTF-8")):
            return ("bytes", plain(args[0]))
    return tuple(plain(x) for x in t)


def apart(a):
    """what is there is something else"""
    E = ("sym", "existing")
    if a[0] == "eq":
        x, y = plain(a[1]), plain(a[2])
        if x == y:
            return True
        if {repr(x), repr(y)} & {repr(E), repr(("bytes", E))}:
            return False
    return None


def compare(ck, od):
    m = module("podio_gen.generator_base")
    fn = m and m.defs.get("write_file_if_changed")
    if fn is None:
        raise AnalysisError("write_file_if_changed is missing")
    ps = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
    w0 = "%s:%d" % (m.rel, fn.node.lineno)
    if len(ps) < 3:
        raise AnalysisError("write_file_if_changed takes other parameters")
    for kind, says in Disk.KINDS.items():
        for force in (False, True):
            disk = Disk(kind)
            eng = Py(scenario=Scenario(rules=[apart]), hook=disk.hook)
            outs = eng.explore(lambda r: r.call(fn, [NAME, TEXT, C(force)], {}, None))
            ck.paths += len(outs)
            must = force or kind in ("missing", "other", "lines", "garbled")
            inst = "a file that %s%s" % (says, ", writing forced" if force else "")
            bad = None
            for o in outs:
                ev = getattr(o.run, "disk", [])
                opened = [e for e in ev if e[0] == "open"]
                written = [e for e in ev if e[0] == "write"]
                if o.kind != "ret":
                    bad = "raises %s" % (o.value[1] if isinstance(o.value, tuple) and len(o.value) > 1 else o.value)
                elif any(e[0] == "touch" for e in ev):
                    bad = "calls %s" % [e for e in ev if e[0] == "touch"][0][1]
                elif not must and (opened or written):
                    bad = "is written although nothing changed"
                elif must and not opened:
                    bad = "is not written"
                elif must:
                    if [e[1] for e in opened] != [NAME] or opened[0][2] not in ("w", "wb", "wt", "bw"):
                        bad = "is opened as %s with the mode '%s'" % (show(opened[0][1]), opened[0][2])
                    elif len(written) != 1 or plain(written[0][2]) not in (TEXT, ("bytes", TEXT)) or written[0][1][1] != NAME:
                        bad = "gets something other than the content: %s" % (written and show(written[0][2]) or "nothing")
                    elif "b" not in opened[0][2] and opened[0][3].get("encoding") not in (C("utf-8"), C("utf8"), C("UTF-8")):
                        bad = "is written with an encoding that depends on the environment"
                v = o.value if o.kind == "ret" else None
                if not bad and o.kind == "ret":
                    try:
                        t = o.run.truth(v)
                    except Exception:   # noqa: a value nothing is known of
                        t = None
                    if t is not must:
                        bad = "is reported as %s" % ("not written although it is" if must else "written although it is not")
                if bad:
                    ck.ob("writes-iff-changed", inst, False, bad, "%s on path: %s" % (w0, o.path()))
                    break
            else:
                if not outs:
                    raise AnalysisError("no path for " + inst)
                ck.ob("writes-iff-changed", inst, True, "", w0)
    ck.funcs.update(["podio_gen.generator_base:write_file_if_changed"])


# ---------------------------------------------------------------- registering what is generated
def ends(kind):
    """names of files with this ending"""
    def rule(a):
        if a[0] == "truthy" and isinstance(a[1], tuple) and a[1][:2] == ("call", ".endswith"):
            f, s = a[1][2][:2]
            k = kind(f)
            if k is None:
                return None
            if is_c(s):
                return ("Some" + k).endswith(s[1])
            if s[0] == "tup" and all(is_c(x) for x in s[1]):
                return any(("Some" + k).endswith(x[1]) for x in s[1])
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_c(y) and isinstance(x, tuple):
                    k = suffix_of(x, kind)
                    if k is not None:
                        return y[1] in (k, k[1:]) if y[1][:1] != "." else y[1] == k
        if a[0] == "in" and isinstance(a[2], tuple) and a[2][0] == "tup" and all(is_c(x) for x in a[2][1]):
            k = suffix_of(a[1], kind)
            if k is not None:
                return k in [x[1] for x in a[2][1]] or k[1:] in [x[1] for x in a[2][1]]
        return None
    return rule


def suffix_of(x, kind):
    """what of the name is looked at: its ending"""
    if not isinstance(x, tuple):
        return None
    s = repr(x)
    if "splitext" in s or "suffix" in s or "split" in s or "[-" in s or "slice" in s:
        for f in subterms(x):
            k = kind(f)
            if k:
                return "." + k.rsplit(".", 1)[1]
    return None


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def pathparts(t):
    if isinstance(t, tuple) and t[0] == "call" and t[1].endswith("join") and not t[1].startswith("str"):
        return [p for x in t[2] for p in pathparts(x)]
    if is_c(t):
        return [C(x) for x in str(t[1]).split("/") if x]
    if isinstance(t, tuple) and t[0] == "fstr":
        out = []
        for x in t[1]:
            out += pathparts(x)
        return out
    if isinstance(t, tuple) and t[0] == "call" and t[1].split(".")[-1] in ("str", "fspath", "normpath"):
        return pathparts(t[2][0])
    return [t]


def gencls(name, mod):
    m = module(mod)
    c = m and m.defs.get(name)
    if c is None:
        raise AnalysisError("%s is missing" % name)
    return c, "%s:%d" % (m.rel, c.node.lineno)


def instance(r, cls, **kw):
    o = r.new("inst", None, cls=cls)
    o.attrs.update({"install_dir": DIR, "package_name": PKG, "dryrun": C(False), "verbose": ("sym", "verbose"), "formatter_func": C(None),
                    "any_changes": ("sym", "any_changes"), "env": ("sym", "env"), "datamodel": ("sym", "datamodel"),
                    "upstream_edm": ("sym", "upstream_edm"), "io_handlers": ("sym", "io_handlers")})
    if "generated_files" not in kw:
        o.attrs["generated_files"] = r.new("list", None)
    o.attrs.update(kw)
    return o


def method_at(cls, name, run=None):
    for n in cls.node.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return "%s:%d" % (cls.mod.rel, n.lineno)
    return cls.mod.rel


FMT = ("sym", "formatter")


def registering(ck):
    cls, w = gencls("CPPClassGenerator", "podio_gen.cpp_generator")
    jl, wj = gencls("JuliaClassGenerator", "podio_gen.julia_generator")
    for c, what, kinds in ((cls, "C++", (".h", ".cc", ".xml")), (jl, "Julia", (".jl",))):
        for k in kinds:
            for fmt in (False, True):
                for before in (False, True):
                    for wrote in (False, True):
                        one_file(ck, c, what, k, fmt, before, wrote)
            dry(ck, c, what, k)


def start_write(cls, k, attrs, box):
    def start(r):
        o = instance(r, cls, **attrs)
        box[id(r)] = o
        r.inst = o
        return r.call(r.getattr(o, "_write_file", None), [NAME, TEXT], {}, None)
    return start


def one_file(ck, cls, what, k, fmt, before, wrote):
    def rule(a):
        if a[0] == "truthy" and isinstance(a[1], tuple) and a[1][:2] == ("call", "write_file_if_changed"):
            return wrote
        if a[0] == "isnone" and a[1] == FMT:
            return False
        if a[0] == "truthy" and a[1] == FMT:
            return True
        return None
    eng = Py(scenario=Scenario(rules=[rule, ends(lambda f: k if f == NAME else None)]), opaque={"write_file_if_changed"})
    outs = eng.explore(start_write(cls, k, {"any_changes": C(before), "formatter_func": FMT if fmt else C(None)}, {}))
    ck.paths += len(outs)
    inst = "%s, a file *%s%s%s%s" % (what, k, ", formatted" if fmt else "", ", others changed" if before else "", ", changed" if wrote else "")
    bad = None
    at = ""
    for o in outs:
        inst_o = o.run.inst
        ck.funcs.update(o.run.called)
        calls = [e for e in o.events if e[0] == "call" and e[1] == "write_file_if_changed"]
        at = calls[0][3] if calls else o.where
        files = inst_o.attrs.get("generated_files")
        got = [x[0] for x in files.items] if isinstance(files, Obj) else None
        if o.kind != "ret":
            bad = "raises %r" % (o.value,)
        elif len(calls) != 1:
            bad = "is written %d times" % len(calls)
        else:
            a = list(calls[0][2])
            kw = calls[0][4]
            a += [kw[n] for n in ("filename", "content") if n in kw]
            want = ("call", show(FMT), (TEXT, a[0])) if fmt else TEXT
            if got != [a[0]]:
                bad = "is written as %s, but registered as %s" % (show(a[0]), got is None and "?" or [show(x) for x in got])
            elif a[1] != want and not (fmt and isinstance(a[1], tuple) and a[1][0] == "call" and a[1][2][:1] == (TEXT,)):
                bad = "gets %s" % show(a[1])
            elif pathparts(a[0]) != [DIR, PKG if k in (".h", ".jl") else C("src"), NAME]:
                bad = "is put at %s" % show(a[0])
            else:
                v = inst_o.attrs.get("any_changes")
                try:
                    t = o.run.truth(v)
                except Exception:   # noqa
                    t = None
                if t is not (before or wrote):
                    bad = "any_changes is %s afterwards" % t
                if any(len(x) > 2 and is_c(x) for x in a[2:]) and a[2] != C(False):
                    bad = "is written always"
        if bad:
            break
    if not outs:
        raise AnalysisError("no path for " + inst)
    ck.ob("registered", inst, not bad, bad or "", at)


def dry(ck, cls, what, k):
    eng = Py(scenario=Scenario(rules=[ends(lambda f: k if f == NAME else None)]), opaque={"write_file_if_changed"}, hook=Disk("other").hook)
    outs = eng.explore(start_write(cls, k, {"dryrun": C(True)}, {}))
    bad = [o for o in outs if any(e[0] == "call" and e[1] == "write_file_if_changed" for e in o.events) or getattr(o.run, "disk", None)]
    ck.ob("registered", "%s, a file *%s in a dry run" % (what, k), not bad, "is written", method_at(cls, "_write_file"))


# ---------------------------------------------------------------- the list for the build system
COLL, HEAD, SRC, SRC2, XML = [("sym", x) for x in ("a Collection header", "another header", "a source", "another source", "an xml file")]
KIND = {COLL: "Collection.h", HEAD: ".h", SRC: ".cc", SRC2: ".cc", XML: ".xml"}
LISTS = {"headers": [COLL, HEAD], "sources": [SRC, SRC2], "selection_xml": [XML]}


def flatten(t):
    """text in pieces"""
    if is_c(t):
        return [str(t[1])]
    if isinstance(t, tuple) and t[0] == "fstr":
        return [p for x in t[1] for p in flatten(x)]
    if isinstance(t, tuple) and t[0] == "call" and t[1] == "str.join":
        sep, lst = t[2]
        items = lst.items if isinstance(lst, Obj) else [(x, ()) for x in lst[1]] if isinstance(lst, tuple) and lst[0] == "tup" else [(lst, ())]
        out = []
        for i, x in enumerate(items):
            if i:
                out += flatten(sep)
            out += flatten(x[0])
        return out
    if isinstance(t, tuple) and t[0] == "call" and t[1].endswith("path.join"):
        out = []
        for i, x in enumerate(t[2]):
            out += (["/"] if i else []) + flatten(x)
        return out
    if isinstance(t, tuple) and t[0] == "add":
        return [p for x in t[1:] for p in flatten(x)]
    return [t]


def listing(ck, od, list_fn):
    cls, w = gencls("CPPClassGenerator", "podio_gen.cpp_generator")
    f0 = [f for f in od.all if f.name == list_fn][0]
    where = "%s:%d" % (f0.mod.rel, f0.node.lineno)

    def coll(a):
        if a[0] == "in" and is_c(a[1]) and a[2] in KIND:
            if "Collection" in a[1][1]:
                return a[2] == COLL
        if a[0] == "truthy" and isinstance(a[1], tuple) and a[1][:2] == ("call", ".endswith"):
            f, s = a[1][2][:2]
            for g in subterms(f):
                if g in KIND and is_c(s):
                    return ("Some" + KIND[g]).endswith(s[1])
        return None

    for changes in (False, True):
        def start(r):
            l = r.new("list", None)
            l.items = [(x, ()) for x in (HEAD, SRC, XML, COLL, SRC2)]
            o = instance(r, cls, generated_files=l, any_changes=C(changes))
            return r.call(r.getattr(o, list_fn, None), [], {}, None)
        eng = Py(scenario=Scenario(rules=[coll, ends(lambda f: KIND.get(f))]), opaque={"write_file_if_changed"})
        outs = eng.explore(start)
        ck.paths += len(outs)
        if not outs:
            raise AnalysisError("no path for the list of files")
        for o in outs:
            ck.funcs.update(o.run.called)
            calls = [e for e in o.events if e[0] == "call" and e[1] == "write_file_if_changed"]
            ok = o.kind == "ret" and len(calls) == 1
            ck.ob("list", "the list is written%s" % (" after changes" if changes else ""), ok, "not once", where)
            if not ok:
                continue
            a, kw = list(calls[0][2]), calls[0][4]
            force = a[2] if len(a) > 2 else kw.get("force_write", C(False))
            ck.ob("list", "writing is %s" % ("forced if something changed" if changes else "not forced if nothing changed"),
                  o.run.truth(force) == changes, "it is %s" % show(force), where)
            content = a[1] if len(a) > 1 else kw.get("content")
            groups(ck, content, where)


def groups(ck, content, where):
    parts = flatten(content)
    got, cur = {}, None
    for p in parts:
        if isinstance(p, str):
            t = p
            while t:
                i, j = t.find("("), t.find(")")
                # ${...} do not hold parentheses
                if cur is None and i >= 0:
                    head = t[i + 1:].split()
                    if t[:i].strip().split()[-1:] and t[:i].strip().split()[-1].lower() == "set":
                        cur = head[0] if head else ("?",)
                        got.setdefault(cur, [])
                    t = t[i + 1:]
                elif cur is not None and j >= 0:
                    cur = None
                    t = t[j + 1:]
                else:
                    if cur == ("?",) and t.strip():
                        got[t.split()[0]] = got.pop(("?",))
                        cur = t.split()[0]
                    break
        else:
            names = [x for x in subterms(p) if x in KIND]
            if names:
                got.setdefault(cur, []).append(names[0])
            elif cur == ("?",):
                got.pop(cur)
                cur = p[1] if is_c(p) else p
                got.setdefault(cur, [])
    for n, want in LISTS.items():
        have = got.get(n, [])
        ck.ob("list", "the files of '%s'" % n, sorted(map(repr, have)) == sorted(map(repr, want)),
              "are %s" % (", ".join(show(x) for x in have) or "none"), where)
    h = got.get("headers", [])
    ck.ob("list", "collection headers come first", COLL in h and HEAD in h and h.index(COLL) < h.index(HEAD), "they do not", where)
    stray = [x for k, v in got.items() if k not in LISTS for x in v]
    ck.ob("list", "nothing else is listed", not stray, "but %s" % stray, where)


def last(ck, od):
    """the list comes after everything that is generated"""
    calls = reach(od)
    if "write_file_if_changed" not in od.fns or "_write_file" not in od.fns:
        raise AnalysisError("the functions that write files are missing")
    direct = {f.name for f in od.all if "write_file_if_changed" in calls[f.qual] and f.name not in ("write_file_if_changed",)}
    # helpers of _write_file
    helpers = {n for n in direct if n == "_write_file" or "_write_file" in {f.name for f in od.all if n in calls[f.qual]} }
    lists = direct - helpers
    if len(lists) != 1:
        raise AnalysisError("the function that writes the list of files was not found: %s" % sorted(direct))
    gen = closure(od, calls, {"_write_file"})
    up = closure(od, calls, lists)
    cls, w = gencls("CPPClassGenerator", "podio_gen.cpp_generator")
    names = {f.name for f in od.all}
    opaque = names - (up - lists)

    for dryrun in (False, True):
        def start(r):
            o = instance(r, cls, dryrun=C(dryrun))
            return r.call(r.getattr(o, "process", None), [], {}, None)
        eng = Py(mode="once", opaque=opaque)
        outs = eng.explore(start)
        ck.paths += len(outs)
        if not outs:
            raise AnalysisError("no path of the generation")
        bad = None
        for o in outs:
            ck.funcs.update(o.run.called)
            seq = [e for e in o.events if e[0] == "call" and (e[1] in gen or e[1] in lists)]
            n = [i for i, e in enumerate(seq) if e[1] in lists]
            if o.kind != "ret":
                bad = "raises %r" % (o.value,)
            elif dryrun:
                bad = "the list is written in a dry run" if n else None
            elif len(n) != 1:
                bad = "the list is written %d times" % len(n)
            elif n[0] != len(seq) - 1:
                bad = "%s comes after the list" % seq[-1][1]
            if bad:
                break
        at = "%s%s" % (w, " on path: " + o.path() if bad else "")
        ck.ob("last", "the list in a dry run" if dryrun else "the list is written after everything else", not bad, bad or "", at)
    return sorted(lists)[0]


def all_sections(ck):
    for name, mod in (("CPPClassGenerator", "podio_gen.cpp_generator"), ("JuliaClassGenerator", "podio_gen.julia_generator")):
        cls, w = gencls(name, mod)
        opaque = {"pre_process", "post_process", "print_report", "DataType"} | {"do_process_" + s for s in ("component", "datatype", "interface", "link")}
        for sec in SECTIONS:
            D = ("attr", ("sym", "datamodel"), sec)
            one = "do_process_" + sec[:-1]

            def start(r):
                o = instance(r, cls)
                r.call(r.getattr(o, "process", None), [], {}, None)
            eng = Py(scenario=Scenario(enter=[D]), opaque=opaque, copies=True)
            outs = eng.explore(start)
            ck.paths += len(outs)
            bad, at = None, w
            for o in outs:
                ck.funcs.update(o.run.called)
                ev = [e for e in o.events if e[0] == "call" and e[1] in opaque]
                mine = [i for i, e in enumerate(ev) if e[1] == one]
                post = [i for i, e in enumerate(ev) if e[1] == "post_process"]
                pre = [i for i, e in enumerate(ev) if e[1] == "pre_process"]
                if o.kind != "ret":
                    bad = "raises"
                elif not mine:
                    bad = "are not processed"
                elif len(post) != 1 or len(pre) != 1 or post[0] < mine[-1] or pre[0] > mine[0]:
                    bad = "are not processed between the work before and after everything"
                else:
                    args = ev[mine[-1]][2]
                    el = ("el", D)
                    if not any(norm(x) == el for x in args if isinstance(x, tuple)):
                        bad = "are processed as %s" % [show(x) for x in args]
                    defs = [x for x in args if isinstance(x, tuple) and norm(x) == ("item", D, el)]
                    sets = [e for e in o.events if e[0] == "setitem" and isinstance(e[1], tuple) and norm(e[1]) == ("item", D, el)]
                    if defs or sets:
                        bad = "are changed themselves, not a copy"
                if bad:
                    at = "%s on path: %s" % (w, o.path())
                    break
            if not outs:
                raise AnalysisError("no path of the generation")
            ck.ob("all", "%s: the %s of the definition" % (name, sec), not bad, bad or "", at)


def only_writer(ck, od):
    calls = reach(od)
    writers = {}
    for f in od.all:
        for x in writes(f.node):
            writers.setdefault(f.name, []).append("%s:%d" % (f.mod.rel, x.lineno))
    for m in od.mods:
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for x in writes(s):
                    writers.setdefault("(module)", []).append("%s:%d" % (m.rel, x.lineno))
    ok = {"write_file_if_changed"}
    # what only write_file_if_changed uses
    while True:
        more = {n for n in writers if n not in ok and n != "(module)" and (u := {f.name for f in od.all if n in calls[f.qual]}) and u <= ok}
        if not more:
            break
        ok |= more
    for f in od.all:
        bad = f.name in writers and f.name not in ok
        ck.ob("one-writer", "%s:%s" % (f.mod.rel, f.qual), not bad, "changes files by itself", bad and writers[f.name][0] or "%s:%d" % (f.mod.rel, f.node.lineno))
    ck.ob("one-writer", "what the scripts do themselves", "(module)" not in writers, "changes files", writers.get("(module)", [""])[0])
    if not any(n in ok for n in writers):
        raise AnalysisError("nothing is written")


def run(ck):
    ck.rule("no-varying", "what is written and what templates are filled with does not depend on the order of sets, hashes, addresses, time, environment, "
            "directory listings, what is in the output folder or where that is: a dataflow over the syntax trees of the whole generator")
    ck.rule("ordered-data", "everything the templates use by name, and everything of the definition that is embedded, gets no set and nothing in an order taken from one")
    ck.rule("no-state", "no function changes something that later calls see: variables of modules or classes, default values")
    ck.rule("one-writer", "files are only changed by write_file_if_changed")
    ck.rule("writes-iff-changed", "for every prior state of a file (missing, same, another content, other ends of lines, not text) write_file_if_changed "
            "writes exactly the content, with a fixed encoding, iff the file is different or writing is forced, and says so")
    ck.rule("registered", "each file is written once, after formatting, to the folder of its kind, and registered by the same name whether it changed or not; "
            "any_changes says whether one of them did; nothing happens in a dry run")
    ck.rule("list", "the list for the build system has each header, source and xml file once in its variable, collection headers first, and is rewritten if something changed")
    ck.rule("last", "the list is written once, after everything that generates files")
    ck.rule("all", "each component, datatype, interface and link of the definition is processed, as a copy")
    od = order(ck)
    state(ck, od)
    only_writer(ck, od)
    compare(ck, od)
    registering(ck)
    fn = last(ck, od)
    listing(ck, od, fn)
    all_sections(ck)
    ck.need("no-varying", 3)
    ck.need("writes-iff-changed", 12)
    ck.need("registered", 30)
    ck.need("list", 8)
    ck.assume("the formatter, the yaml and the template engine give the same output for the same input; compiled templates are cached by their text")
    ck.assume("no two definitions share their unqualified name (they would be generated into the same file)")
