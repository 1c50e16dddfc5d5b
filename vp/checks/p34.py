"""P34: collections describe their own type"""
import os
import re

from ..frontend import REPO, VERIF
from ..io import *
from ..reg import *

ALIAS = {"signed char": "int8_t", "short": "int16_t", "int": "int32_t", "long": "int64_t", "unsigned char": "uint8_t",
         "unsigned short": "uint16_t", "unsigned int": "uint32_t", "unsigned long": "uint64_t"}
UD = "podio::UserDataCollection<"


def run(ck):
    ck.rule("names", "the names that a collection reports are those of its own type, of its elements and of their data")
    ck.rule("version", "a collection reports the schema version of the data model it was generated from")
    ck.rule("buffers", "the buffers made for a collection carry its type and version, and create a collection of this type")
    ck.rule("registered", "each collection is registered under its own name with its current version and a function that makes "
                          "buffers for it")
    ck.rule("handle", "the type name of a handle is the name of its type")
    prog = ck.load("core", "cover")
    regs = registrations(ck)
    made = {}
    for r in regs:
        if r.kind == MAKE:
            made.setdefault(text(prog, r.args[0]), []).append(r)
    known = {text(prog, r.args[0]): r for r in regs if r.kind == EVOLVE}
    recs = collections(ck)
    for rec in recs:
        names(ck, prog, rec)
        version(ck, prog, rec)
        registered(ck, prog, rec, made, known)
    for a, b in handle_recs(prog):
        for rec in (a, b):
            v = constant(prog, rec, "typeName")
            if v is not None:
                ck.ob("handle", rec, v == spelled(prog, a), "its name is %s" % v)
    for q, g in prog.globals.items():
        if q.endswith("::typeName") and g["file"].startswith("gen:"):
            ck.ob("handle", q, g.get("cs") == q[:-len("::typeName")], "is %s" % g.get("cs"), "%s:%d" % (g["file"], g["line"]))
    ck.need("names", 70)
    ck.need("version", 23)
    ck.need("buffers", 60)
    ck.need("registered", 60)
    ck.need("handle", 20)


def collections(ck):
    prog = ck._prog
    out = [c.rec for c in all_colls(ck)]
    out += sorted(r for r in prog.by_rec if r and r.startswith(UD) and methods(prog, r, "push_back"))
    return out


def spelled(prog, ty):
    """how podio spells a type"""
    ty = strip_type(ty)
    m = re.fullmatch(r"podio::UserDataCollection<(.*?)(, void)?>", ty)
    if m:
        return UD + ALIAS.get(m.group(1), m.group(1)) + ">"
    m = re.fullmatch(r"podio::LinkT?<(.*?), (.*?)(, \w+)?>", ty)
    if m:
        return "podio::Link<%s,%s>" % m.groups()[:2]
    m = re.fullmatch(r"podio::LinkCollection<(.*?), (.*?)>", ty)
    if m:
        return "podio::LinkCollection<%s,%s>" % m.groups()[:2]
    return ALIAS.get(ty, ty)


def constant(prog, rec, name):
    """the text of a constant of a class"""
    rec = rec[:-len(", void>")] + ">" if rec.endswith(", void>") else rec
    g = prog.globals.get("%s::%s" % (rec, name))
    return g.get("cs") if g else None


def getter(ck, rule, prog, rec, name, want, as_text=True):
    ms = methods(prog, rec, name, 0)
    if len(ms) != 1:
        ck.ob(rule, "%s of %s" % (name, rec), False, "there are %d of them" % len(ms))
        return
    for o in ck.outs(ms[0], once=True):
        v = (text if as_text else number)(prog, o.value) if o.kind == "ret" else None
        ck.ob(rule, "%s of %s" % (name, rec), v == want, "is %s instead of %s" % (v if v is not None else show(o.value), want), ms[0].loc)


def value_type(ck, prog, rec):
    if rec.startswith(UD):
        return re.fullmatch(r"podio::UserDataCollection<(.*?)(, void)?>", rec).group(1)
    t = {strip_type(f.rt) for f in methods(prog, rec, "operator[]", 1, const=True)}
    if len(t) != 1:
        raise AnalysisError("elements of %s are unknown: %s" % (rec, t))
    return t.pop()


def names(ck, prog, rec):
    value = value_type(ck, prog, rec)
    if rec.startswith(UD):
        data = spelled(prog, value)
    elif rec.startswith("podio::LinkCollection<"):
        data = "podio::LinkData"
    else:
        data = value + "Data"
    for const, get, want in (("typeName", "getTypeName", spelled(prog, rec)), ("valueTypeName", "getValueTypeName", spelled(prog, value)),
                             ("dataTypeName", "getDataTypeName", data)):
        v = constant(prog, rec, const)
        ck.ob("names", "%s of %s" % (const, rec), v == want, "is %s instead of %s" % (v, want))
        getter(ck, "names", prog, rec, get, want)


def model_version(prog, rec):
    """the version in the description of the data model"""
    if rec.startswith("podio::"):
        rec = rec[:-len(", void>")] + ">" if rec.endswith(", void>") else rec
        g = prog.globals.get(rec + "::schemaVersion")
        return g.get("cv") if g else None
    g = prog.globals.get(rec + "::typeName")
    if not g or not g["file"].startswith("gen:"):
        return None
    model = g["file"][len("gen:"):].split("/")[0]
    with open(os.path.join(VERIF, "models", model + ".yaml")) as f:
        m = re.search(r"^schema_version\s*:\s*(\d+)", f.read(), re.M)
    return int(m.group(1)) if m else None


def version(ck, prog, rec):
    want = model_version(prog, rec)
    if want is None:
        raise AnalysisError("version of %s is unknown" % rec)
    getter(ck, "version", prog, rec, "getSchemaVersion", want, False)


def registered(ck, prog, rec, made, known):
    name = spelled(prog, rec)
    want = model_version(prog, rec)
    inst = "registration of " + rec
    rs = made.get(name, [])
    ck.ob("registered", inst, bool(rs), "there is no function that makes buffers for %s" % name)
    ck.ob("registered", inst, name in known, "it is not known to the schema evolution")
    if name in known:
        v = number(prog, known[name].args[2])
        ck.ob("registered", inst, v == want, "the schema evolution has version %s" % v, known[name].where)
    for r in rs:
        v = number(prog, r.args[1])
        fn = function(ck, r.args[2])
        if fn is None:
            raise AnalysisError("%s: the registered function is unknown: %s" % (r, show(r.args[2])))
        if v != want and len(rs) > 1:
            continue    # an older version
        ck.ob("registered", inst, v == want, "has version %s instead of %s" % (v, want), r.where)
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path()[:200])
            if o.kind != "ret":
                continue
            b = "buffers of " + rec
            x = text(prog, o.load(F(o.value, "type")))
            ck.ob("buffers", b, x == name, "have the type %s" % (x or show(o.load(F(o.value, "type")))), w)
            x = number(prog, o.load(F(o.value, "schemaVersion")))
            ck.ob("buffers", b, x == want, "have the version %s" % (x if x is not None else show(o.load(F(o.value, "schemaVersion")))), w)
            g = function(ck, o.load(F(o.value, "createCollection")))
            if g is None:
                raise AnalysisError("%s do not say how to create a collection" % b)
            for p in ck.outs(g, once=True):
                if p.kind == "ret":
                    c = deref(p.value) if p.value is not None else None
                    ck.ob("buffers", b, c is not None and c[0] == "obj" and c[2] == rec,
                          "create %s" % (c[2] if c and c[0] == "obj" else show(p.value)), g.loc)
