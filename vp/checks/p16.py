"""P16: invalid data model definitions are rejected"""
from ..py import *
from ..core import AnalysisError

DM, UP = ("sym", "datamodel"), ("sym", "upstream_edm")
BASE = ("Description", "Author")


def A(t, n):
    return ("attr", t, n)


def I(t, k):
    return ("item", t, C(k) if isinstance(k, (str, int)) else k)


def E(t):
    return ("el", t)


def isin(x, c, v):
    return {("in", x, c): v}


class Validator:
    def __init__(self, ck):
        self.ck = ck
        m = module("podio_gen.podio_config_reader")
        cls = m and m.defs.get("ClassDefinitionValidator")
        if cls is None:
            raise AnalysisError("ClassDefinitionValidator is missing")
        self.cls = cls
        self.where = "%s:%d" % (m.rel, cls.node.lineno)

    def outs(self, scn, up):
        eng = Py(scenario=scn)

        def start(r):
            f = r.getattr(self.cls, "validate", None)
            return r.call(f, [DM, UP if up else C(None)], {}, None)
        out = eng.explore(start)
        self.ck.paths += len(out)
        if out:
            self.ck.funcs.update(out[0].run.called)
        return out

    def scenario(self, d, up):
        facts = dict(d.get("facts", {}))
        facts[("truthy", UP)] = True
        return Scenario(enter=d.get("enter", ()), keys=d.get("keys"), values=d.get("values"), facts=facts,
                        rules=d.get("rules", ()), same=d.get("same", False))

    def rejected(self, inst, d, ups=(False, True)):
        d = any_name(d)
        for up in ups:
            w = "%s%s" % (inst, " (with an upstream model)" if up else "")
            outs = self.outs(self.scenario(d, up), up)
            bad = [o for o in outs if o.kind == "ret"]
            if not outs:
                raise AnalysisError("no path for: " + w)
            self.ck.ob("rejects", w, not bad, "is accepted", "%s%s" % (self.where, " on path: " + bad[0].path() if bad else ""))

    def accepted(self, inst, d, ups=(False, True)):
        for up in ups:
            w = "%s%s" % (inst, " (with an upstream model)" if up else "")
            outs = self.outs(self.scenario(dict(d, same=True), up), up)
            bad = [o for o in outs if o.kind == "raise" and not o.run.free]
            if not any(o.kind == "ret" for o in outs) and not bad:
                bad = outs
            self.ck.ob("accepts", w, not bad, "is rejected", bad and "%s on path: %s" % (bad[0].where, bad[0].path()) or self.where)


def section(s):
    X = A(DM, s)
    n = E(X)
    return X, n, ("item", X, n)


def names_free(n):
    """the name of a definition is not in use"""
    return {("in", n, A(d, s)): False for d in (DM, UP) for s in ("components", "datatypes", "interfaces", "links")}


def lookups(x, secs, v):
    return {("in", x, A(d, s)): v for d in (DM, UP) for s in secs}


def member(m, builtin=False, array=None):
    f = {("truthy", A(m, "is_builtin")): builtin}
    f[("truthy", A(m, "is_builtin_array"))] = False
    if array is not None:
        f[("truthy", A(m, "is_array"))] = array
    return f


COMPS, TYPES = ("components",), ("datatypes", "interfaces")


def any_name(d):
    """without what is known about names not being in use"""
    return dict(d, facts={a: t for a, t in d.get("facts", {}).items() if t or not (a[0] == "in" and a[1][0] == "el" and a[1][1][0] == "attr" and
                                                                             a[1][1][1] == DM)})


def components(v):
    X, n, d = section("components")
    ok = {"Members"}
    base = {"enter": [X], "keys": {d: ok}, "facts": names_free(n)}
    for k in ("NoSuchKey", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "MutableExtraCode", "Types"):
        v.rejected("component with '%s'" % k, dict(base, keys={d: ok | {k}}))
    for k in ("noSuchKey", "implementation", "implementationFile"):
        v.rejected("component with extra code '%s'" % k, dict(base, keys={d: ok | {"ExtraCode"}, I(d, "ExtraCode"): {k}}))
        v.rejected("component with declaration and extra code '%s'" % k,
                   dict(base, keys={d: ok | {"ExtraCode"}, I(d, "ExtraCode"): {"declaration", k}}))
    M = I(d, "Members")
    m = E(M)
    into = dict(base, enter=[X, M])
    unknown = (lookups(A(m, "full_type"), COMPS, False) | names_free(n))
    v.rejected("component member of unknown type", dict(into, facts=(unknown | member(m, array=False))))
    v.rejected("component member that is an array of an unknown type",
               dict(into, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, array=True))))
    clash(v, "component with two members of the same name", dict(into, facts=(member(m, builtin=True, array=False) | names_free(n))),
          [(A(m, "name"), A(m, "name"))])
    v.accepted("component with all kinds of entries", dict(
        base, keys={d: {"Members", "ExtraCode", "Description", "Author"}, I(d, "ExtraCode"): {"declaration", "includes", "declarationFile"}}))
    v.accepted("component member of a builtin type", dict(into, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, builtin=True, array=False)), rules=[fresh]))
    v.accepted("component member that is a component", dict(into, facts=(lookups(A(m, "full_type"), COMPS, True) | names_free(n) | member(m, array=False)), rules=[fresh]))
    v.accepted("component member that is an array of components", dict(into, facts=(unknown | lookups(A(m, "array_type"), COMPS, True) | member(m, array=True)), rules=[fresh]))
    v.accepted("component member that is an array of a builtin type", dict(into, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, array=True) | {("truthy", A(m, "is_builtin_array")): True}),
        rules=[fresh]))


def fresh(a):
    """names that were not used before"""
    if a[0] == "in" and isinstance(a[2], tuple) and a[2][0] == "prev":
        return False
    if a[0] == "eq" and all(isinstance(x, tuple) and x[0] == "attr" and x[2] == "name" for x in a[1:]):
        return a[1] == a[2]
    if a[0] == "eq" and all(isinstance(x, tuple) and x[0] == "len" for x in a[1:]):
        return True
    return None


def holds(o, t):
    """the containers that have t in them at the end of a path"""
    out = set()
    for x in o.run.alive:
        if x.kind in ("list", "set", "dict") and x.acc and any(norm(i[0]) == t for i in x.items):
            out.add(x.site)
    return out


def clash(v, inst, d, pairs):
    """(first, second): names that must not be the same; the first was seen in an earlier round"""
    d = any_name(d)
    for up in (False, True):
        w = "%s%s" % (inst, " (with an upstream model)" if up else "")
        outs = v.outs(v.scenario(dict(d, rules=[fresh]), up), up)
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            raise AnalysisError("no accepting path for the names of: " + w)
        for first, second in pairs:
            kept = set.intersection(*[holds(o, first) for o in rets])

            def used(a):
                if a[0] == "in" and a[1] == second and isinstance(a[2], tuple) and a[2][0] == "prev":
                    return a[2][1].site in kept
                if a[0] == "eq" and all(isinstance(x, tuple) and x[0] == "len" and isinstance(x[1], Obj) for x in a[1:]):
                    ks = [x[1].kind for x in a[1:]]
                    if sorted(ks) == ["list", "set"] and all(any(norm(i[0]) == t for i in x[1].items) for x in a[1:] for t in (first, second)):
                        return False
                if a[0] == "lt" and a[1] == C(1) and isinstance(a[2], tuple) and a[2][:2] == ("call", ".count") and norm(a[2][2][1]) == second:
                    return any(norm(i[0]) == first for i in a[2][2][0].items) if isinstance(a[2][2][0], Obj) else None
                if a[0] in ("isnone", "truthy") and isinstance(a[1], tuple) and a[1][0] == "item" and isinstance(a[1][1], Obj) and \
                        a[1][1].site in kept:
                    return a[0] == "truthy"
                return fresh(a) if a[0] == "in" else None
            bad = [o for o in v.outs(v.scenario(dict(d, rules=[used]), up), up) if o.kind == "ret"]
            v.ck.ob("rejects", w, not bad, "is accepted", "%s%s" % (v.where, " on path: " + bad[0].path() if bad else ""))


def datatypes(v):
    X, n, d = section("datatypes")
    ok = set(BASE)
    free = names_free(n)
    for dd in (DM,):
        free[("in", n, A(dd, "datatypes"))] = True
    base = {"enter": [X], "keys": {d: ok}, "facts": free}
    for k in ("NoSuchKey", "TransientMembers", "Typedefs", "From", "To", "Types"):
        v.rejected("datatype with '%s'" % k, dict(base, keys={d: ok | {k}}))
        v.rejected("datatype with members and '%s'" % k, dict(base, keys={d: ok | {"Members", k}}))
    for k in BASE:
        v.rejected("datatype without '%s'" % k, dict(base, keys={d: ok - {k}}))
        v.rejected("datatype with members and without '%s'" % k, dict(base, keys={d: ok - {k} | {"Members"}}))
    for f in ("ExtraCode", "MutableExtraCode"):
        v.rejected("datatype with unknown '%s'" % f, dict(base, keys={d: ok | {f}, I(d, f): {"noSuchKey"}}))
        v.rejected("datatype with known and unknown '%s'" % f, dict(base, keys={d: ok | {f}, I(d, f): {"declaration", "noSuchKey"}}))
    v.rejected("datatype with the name of a component", dict(base, facts=(free | {("in", n, A(DM, "components")): True})))
    M = I(d, "Members")
    m = E(M)
    expose = I(A(DM, "options"), "exposePODMembers")
    into = dict(base, enter=[X, M], keys={d: ok | {"Members"}})
    unknown = (lookups(A(m, "full_type"), COMPS, False) | free)
    for ex in (True, False):
        t = dict(into, values={expose: ex})
        w = " (exposed)" if ex else ""
        v.rejected("datatype member of unknown type" + w, dict(t, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, array=False))))
        v.rejected("datatype member that is an array of an unknown type" + w,
                   dict(t, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, array=True))))
        clash(v, "datatype with two members of the same name" + w, dict(t, facts=(unknown | member(m, builtin=True, array=False))),
              [(A(m, "name"), A(m, "name"))])
        v.accepted("datatype member of a builtin type" + w, dict(t, facts=(unknown | lookups(A(m, "array_type"), COMPS, False) | member(m, builtin=True, array=False)), rules=[fresh]))
        v.accepted("datatype member that is an array of components" + w, dict(t, facts=(unknown | lookups(A(m, "array_type"), COMPS, True) | member(m, array=True)), rules=[fresh]))
    for src in (DM, UP):
        comp = ("item", A(src, "components"), A(m, "full_type"))
        S = I(comp, "Members")
        s = E(S)
        facts = (free | member(m, array=False))
        facts[("in", A(m, "full_type"), A(DM, "components"))] = src == DM
        facts[("in", A(m, "full_type"), A(UP, "components"))] = src == UP
        facts[("truthy", comp)] = True
        facts.update(lookups(A(m, "array_type"), COMPS, False))
        ups = (False, True) if src == DM else (True,)
        t = dict(into, enter=[X, M, S], values={expose: True}, facts=facts, keys={d: ok | {"Members"}, comp: {"Members"}})
        w = " of the upstream model" if src == UP else ""
        v.accepted("datatype member that is a component" + w, dict(t, rules=[fresh]), ups)
        if src == DM:
            clash(v, "datatype with a member and an exposed member of the same name", t, [(A(m, "name"), A(s, "name")), (A(s, "name"), A(m, "name"))])
            clash(v, "datatype with exposed members of the same name", t, [(A(s, "name"), A(s, "name"))])
    for cat in ("OneToOneRelations", "OneToManyRelations", "VectorMembers"):
        R = I(d, cat)
        r = E(R)
        t = dict(base, enter=[X, R], keys={d: ok | {cat}})
        secs = COMPS if cat == "VectorMembers" else TYPES
        v.rejected("%s of unknown type" % cat, dict(t, facts=(free | lookups(A(r, "full_type"), secs, False) | member(r, array=False))))
        if cat == "VectorMembers":
            v.accepted("%s of builtin type" % cat, dict(t, facts=(free | lookups(A(r, "full_type"), secs, False) | member(r, builtin=True, array=False)), rules=[fresh]))
        for src in (DM, UP):
            for s in secs:
                facts = (free | lookups(A(r, "full_type"), secs, False) | member(r, array=False))
                facts[("in", A(r, "full_type"), A(src, s))] = True
                v.accepted("%s: to %s%s" % (cat, s, " of the upstream model" if src == UP else ""), dict(t, facts=facts, rules=[fresh]),
                           (False, True) if src == DM else (True,))
        good = (free | lookups(A(r, "full_type"), secs, True) | member(r, array=False))
        clash(v, "datatype with %s of the same name" % cat, dict(t, facts=good), [(A(r, "name"), A(r, "name"))])
        both = (good | lookups(A(m, "full_type"), COMPS, False) | member(m, builtin=True, array=False))
        clash(v, "datatype with a member and one of the %s of the same name" % cat,
              dict(t, enter=[X, M, R], keys={d: ok | {cat, "Members"}}, facts=both, values={expose: False}), [(A(m, "name"), A(r, "name"))])
    v.accepted("datatype with all kinds of entries", dict(
        base, keys={d: ok | {"Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode"},
                    I(d, "ExtraCode"): {"declaration", "implementation", "includes", "declarationFile", "implementationFile"},
                    I(d, "MutableExtraCode"): {"declaration", "implementation", "includes", "declarationFile", "implementationFile"}}))


def interfaces(v):
    X, n, d = section("interfaces")
    ok = set(BASE) | {"Members", "Types"}
    free = (names_free(n) | {("in", n, X): True})
    base = {"enter": [X], "keys": {d: ok}, "facts": free}
    for s in ("datatypes", "components"):
        v.rejected("interface with the name of one of the %s" % s, dict(base, facts=(free | {("in", n, A(DM, s)): True})))
    v.rejected("interface with the name of a datatype of the upstream model", dict(base, facts=(free | {("in", n, A(UP, "datatypes")): True})), (True,))
    required(v, "interface", base, d, ok)
    T = I(d, "Types")
    t = E(T)
    into = dict(base, enter=[X, T])
    v.rejected("interface with an unknown type", dict(into, facts=(free | lookups(A(t, "full_type"), ("datatypes",), False))))
    v.accepted("interface of datatypes", dict(into, facts=(free | lookups(A(t, "full_type"), ("datatypes",), True))))
    v.accepted("interface of datatypes of the upstream model", dict(into, facts=(free | {("in", A(t, "full_type"), A(DM, "datatypes")): False, ("in", A(t, "full_type"), A(UP, "datatypes")): True})), (True,))


def required(v, what, base, d, ok):
    for k in sorted(ok):
        v.rejected("%s without '%s'" % (what, k), dict(base, keys={d: ok - {k}}))
    for k in ("NoSuchKey", "OneToOneRelations", "ExtraCode"):
        v.rejected("%s with '%s'" % (what, k), dict(base, keys={d: ok | {k}}))


def links(v):
    X, n, d = section("links")
    ok = set(BASE) | {"From", "To"}
    free = (names_free(n) | {("in", n, X): True})
    ends = {}
    for e in ("From", "To"):
        ends.update(lookups(A(I(d, e), "full_type"), TYPES, True))
    base = {"enter": [X], "keys": {d: ok}, "facts": (free | ends)}
    for s in ("datatypes", "components", "interfaces"):
        v.rejected("link with the name of one of the %s" % s, dict(base, facts=(free | ends | {}) | {("in", n, A(DM, s)): True}))
    for s in TYPES:
        v.rejected("link with the name of one of the %s of the upstream model" % s,
                   dict(base, facts=(free | ends) | {("in", n, A(UP, s)): True}), (True,))
    required(v, "link", base, d, ok)
    for e in ("From", "To"):
        v.rejected("link %s an unknown type" % e, dict(base, facts=(free | ends) | lookups(A(I(d, e), "full_type"), TYPES, False)))
    v.accepted("link of known types", base)
    for src in (DM, UP):
        for s in TYPES:
            facts = (free | ends)
            for e in ("From", "To"):
                facts.update(lookups(A(I(d, e), "full_type"), TYPES, False))
                facts[("in", A(I(d, e), "full_type"), A(src, s))] = True
            v.accepted("link of %s%s" % (s, " of the upstream model" if src == UP else ""), dict(base, facts=facts),
                       (False, True) if src == DM else (True,))


SECTIONS = {
    "components": ({"Members", "ExtraCode", "Description", "Author", "NoSuchKey"}, ("Members",), False),
    "datatypes": ({"Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations", "ExtraCode", "MutableExtraCode", "Description",
                   "Author", "NoSuchKey"}, ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"), True),
    "interfaces": ({"Members", "Types", "Description", "Author", "NoSuchKey"}, ("Members",), True),
    "links": ({"From", "To", "Description", "Author", "NoSuchKey"}, (), True),
}
MODEL, VERSION = ("sym", "model_dict"), I(("sym", "model_dict"), "schema_version")


class Reader:
    def __init__(self, ck):
        self.ck = ck
        m = module("podio_gen.podio_config_reader")
        cls = m and m.defs.get("PodioConfigReader")
        if cls is None:
            raise AnalysisError("PodioConfigReader is missing")
        self.cls, self.where = cls, "%s:%d" % (m.rel, cls.node.lineno)

    def outs(self, scn, ign=C(False), raising=None):
        eng = Py(scenario=scn, opaque={"validate", "parse"}, raising=raising)

        def start(r):
            return r.call(r.getattr(self.cls, "parse_model", None), [MODEL, ("sym", "package_name"), UP, ("sym", "parent_path"), ign], {}, None)
        out = eng.explore(start)
        self.ck.paths += len(out)
        self.ck.funcs.update(out[0].run.called if out else ())
        return out


def good_version():
    return {("notint", VERSION): False, ("lt", C(0), ("int", VERSION)): True, ("lt", ("int", VERSION), C(1)): False}


def validated(o):
    """the model that was validated on a path with the upstream model"""
    for e in o.events:
        if e[0] == "call" and e[1] == "validate":
            a = list(e[2]) + list(e[4].values())
            if a and any(x is o.value for x in a) and UP in a:
                return True
    return False


def values(d, k):
    if isinstance(d, Obj) and d.kind == "dict":
        return [v for kk, v, b in d.items if norm(kk) == norm(k)]
    return []


def made_from(v, src, what):
    """is v the list of what(element of src)"""
    if not (isinstance(v, Obj) and v.kind == "list"):
        return False
    els = [x for x in v.items if x[0] is not None]
    return len(els) == 1 and what(norm(els[0][0]) if isinstance(els[0][0], tuple) else els[0][0], E(src))


def reads(ck):
    r = Reader(ck)
    n = 0
    for sec, (cats, parsed, descr) in sorted(SECTIONS.items()):
        X = I(MODEL, sec)
        d = ("item", X, E(X))
        lists = {I(d, c) for c in parsed + (("Types",) if sec == "interfaces" else ())}
        for ign in (False, True):
            scn = Scenario(enter={X} | lists, keys={MODEL: {"schema_version", sec}, d: cats, I(d, "ExtraCode"): {"includes"},
                                                    I(d, "MutableExtraCode"): {"includes"}}, facts=good_version())
            outs = r.outs(scn, C(ign))
            rets = [o for o in outs if o.kind == "ret"]
            inst = "%s%s" % (sec, " (without extra code)" if ign else "")
            ck.ob("reads", inst, bool(rets), "cannot be read at all", r.where)
            for o in rets:
                w = "%s on path: %s" % (r.where, o.path())
                ck.ob("validates", inst, validated(o), "a model is returned that was not validated (with the upstream model)", w)
                model = o.value
                if not (isinstance(model, Obj) and model.kind == "inst"):
                    raise AnalysisError("parse_model returns %s" % show(model))
                got = values(model.attrs.get(sec), E(X))
                ck.ob("reads", inst, len(got) == 1, "an entry of the definition is not in the model under its name", w)
                for c in sorted(cats) if got else ():
                    vals = values(got[-1], C(c))
                    src = I(d, c)
                    ck.ob("reads", "%s: %s" % (inst, c), len(vals) == 1, "'%s' of an entry is not in the model" % c, w)
                    if not vals:
                        continue
                    v = vals[-1]
                    if c in parsed:
                        def is_parsed(x, e):
                            return isinstance(x, tuple) and x[:2] == ("call", "parse") and e in x[2] and \
                                (not descr or C(False) not in x[2])
                        ck.ob("reads", "%s: %s" % (inst, c), made_from(v, src, is_parsed), "the members of '%s' are not all parsed, each "
                              "from its own definition%s" % (c, " with a description" if descr else ""), w)
                    elif c == "Types":
                        ck.ob("reads", "%s: %s" % (inst, c), made_from(v, src, lambda x, e: isinstance(x, Obj) and
                              norm(x.attrs.get("full_type")) == e), "not all types are kept", w)
                    elif c in ("From", "To"):
                        ck.ob("reads", "%s: %s" % (inst, c), isinstance(v, Obj) and norm(v.attrs.get("full_type")) == src,
                              "is not the type that the definition names", w)
                    n += 1
    base = {"keys": {MODEL: {"schema_version"}}}
    for what, d in (("schema_version missing", {"keys": {MODEL: set()}}),
                    ("schema_version not a number", dict(base, facts={("notint", VERSION): True})),
                    ("schema_version 0", dict(base, facts={("notint", VERSION): False}, values={("int", VERSION): 0})),
                    ("schema_version negative", dict(base, facts={("notint", VERSION): False}, values={("int", VERSION): -1}))):
        outs = r.outs(Scenario(**d))
        bad = [o for o in outs if o.kind == "ret"]
        ck.ob("rejects", what, bool(outs) and not bad, "is accepted", r.where + (" on path: " + bad[0].path() if bad else ""))
    outs = r.outs(Scenario(keys={MODEL: {"schema_version"}}, facts={("notint", VERSION): False}, values={("int", VERSION): 1}))
    ck.ob("accepts", "schema_version 1", all(o.kind == "ret" for o in outs) and bool(outs), "is rejected", r.where)


def stops(ck):
    """an error in a definition ends everything that reads one"""
    r = Reader(ck)
    ERR = "DefinitionError"

    def check(name, outs, by):
        hit = [o for o in outs if ("raised", by, ERR) in o.events]
        if not hit:
            raise AnalysisError("%s does not call %s" % (name, by))
        for o in hit:
            ok = o.kind == "raise"
            if ok and isinstance(o.value, tuple) and o.value[:2] == ("exc", "SystemExit"):
                a = o.value[2]
                ok = bool(a) and is_c(a[0]) and a[0][1] not in (0, None, False)
            ck.ob("stops", name, ok, "goes on after %s has failed" % by, "%s on path: %s" % (r.where, o.path()))

    check("parse_model", r.outs(Scenario(keys={MODEL: {"schema_version"}}, facts=good_version()), raising={"validate": (ERR,)}), "validate")
    for sec, (cats, parsed, descr) in sorted(SECTIONS.items()):
        if not parsed:
            continue
        X = I(MODEL, sec)
        d = ("item", X, E(X))
        for c in parsed:
            scn = Scenario(enter={X, I(d, c)}, keys={MODEL: {"schema_version", sec}, d: {c}}, facts=good_version())
            check("parse_model: %s of %s" % (c, sec), r.outs(scn, raising={"parse": (ERR,)}), "parse")

    def explore(mod, name, args, op, cls=None, kw=None):
        m = module(mod)
        if m is None or (cls or name) not in m.defs:
            raise AnalysisError("%s.%s is missing" % (mod, cls or name))
        eng = Py(mode="once", opaque={op}, raising={op: (ERR,)})

        def start(run):
            if cls:
                o = run.new("inst", None, cls=m.defs[cls])
                return run.call(run.getattr(o, name, None), args(run), kw or {}, None)
            return run.call(m.defs[name], args(run), kw or {}, None)
        outs = eng.explore(start)
        ck.paths += len(outs)
        ck.funcs.update(outs[0].run.called if outs else ())
        check("%s%s" % (cls + "." if cls else "", name), outs, op)

    explore("podio_gen.podio_config_reader", "read", lambda run: [("sym", "yamlfile"), ("sym", "package_name")], "parse_model", "PodioConfigReader")
    explore("podio_gen.generator_base", "__init__",
            lambda run: [("sym", x) for x in ("yamlfile", "install_dir", "package_name", "verbose", "dryrun", "upstream_edm")], "read",
            "ClassGeneratorBaseMixin")
    explore("podio_class_generator", "read_upstream_edm", lambda run: [("sym", "name_path")], "read")


FIXED = ["%sint%s%d_t" % (u, k, n) for u in ("", "u") for k in ("", "_fast", "_least") for n in (8, 16, 32, 64)]


def parser(ck):
    m = module("podio_gen.podio_config_reader")
    P = m.defs.get("MemberParser")
    if P is None:
        raise AnalysisError("MemberParser is missing")
    where = "%s:%d" % (m.rel, P.node.lineno)

    def outs(name, args, **kw):
        eng = Py(**kw)

        def start(run):
            o = run.new("inst", None, cls=P)
            return run.call(run.getattr(o, name, None), args, {}, None)
        out = eng.explore(start)
        ck.paths += len(out)
        ck.funcs.update(out[0].run.called if out else ())
        return out
    for descr in (True, False, None):
        args = [("sym", "string")] + ([C(descr)] if descr is not None else [])
        for o in outs("parse", args, mode="once", opaque={"_parse_with_regexps"}, raising={"_parse_with_regexps": ("DefinitionError",)}):
            calls = [e for e in o.events if e[0] in ("call", "raised") and e[1] == "_parse_with_regexps"]
            failed = [a for a, b in zip(calls, calls[1:]) if b[0] == "raised"]
            calls = [e for e in calls if e[0] == "call"]
            if o.kind == "raise":
                ck.ob("parser", "parse", bool(failed), "an entry is rejected that was not looked at", where)
                continue
            used = [e for e in calls if e not in failed and e[5] == o.value]
            ck.ob("parser", "parse", bool(used), "something is returned that no pattern has matched", where)
            if descr is not False:
                bare = [p for e in used for p in patterns(ck, P, e) if "\\/\\/" not in p and "//" not in p]
                ck.ob("parser", "parse (description needed)", not bare, "a pattern without a description is used", where)
    for o in outs("_parse_with_regexps", [("sym", "string"), ("sym", "patterns")], mode="solo"):
        if o.kind == "ret":
            hit = [e for e in o.events if e[0] == "br" and e[2] and e[1][0] == "truthy" and isinstance(e[1][1], tuple) and
                   e[1][1][:1] == ("call",) and e[1][1][1] in (".match", ".fullmatch")] or \
                [e for e in o.events if e[0] == "br" and not e[2] and e[1][0] == "isnone"]
            ck.ob("parser", "_parse_with_regexps", bool(hit) and o.value != C(None), "an entry is accepted that nothing matches",
                  "%s on path: %s" % (where, o.path()))
    g = module("podio_gen.generator_utils")
    f = g.defs.get("_is_fixed_width_type")
    for t in FIXED if f is not None else ():
        for pre in ("", "std::"):
            out = Py().function(f, [C(pre + t)])
            ck.paths += len(out)
            good = t in ("int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t")
            ok = len(out) == 1 and (out[0].kind == "ret" and out[0].value == C(True) if good else out[0].kind == "raise")
            ck.ob("fixed", pre + t, ok, "is %s" % ("rejected" if good else "accepted"), "%s:%d" % (g.rel, f.node.lineno))
    if f is None:
        raise AnalysisError("_is_fixed_width_type is missing")
    for kind, kw in (("member", {"type": ("sym", "t")}), ("array", {"array_type": ("sym", "t"), "array_size": C("3")})):
        for typ in (C("int8_t"), C("std::uint8_t"), C("int_fast16_t")):
            args = {k: typ if v == ("sym", "t") else v for k, v in kw.items()}
            out = Py().explore(lambda run: run.construct(g.defs["MemberVariable"], [C("x")], dict(args), None))
            ck.ob("fixed", "%s of type %s" % (kind, typ[1]), bool(out) and all(o.kind == "raise" for o in out), "is accepted",
                  "%s:%d" % (g.rel, g.defs["MemberVariable"].node.lineno))


def patterns(ck, cls, e):
    """the patterns that are passed to a call"""
    out = []
    for a in e[2]:
        if isinstance(a, Obj) and a.kind == "list":
            for v, b in a.items:
                if isinstance(v, tuple) and v[0] == "tup" and isinstance(v[1][0], tuple) and v[1][0][0] == "regex":
                    out.append(v[1][0][1])
                elif isinstance(v, tuple) and v[0] == "tup" and isinstance(v[1][0], tuple) and v[1][0][0] == "call":
                    out.append(show(v[1][0]))
                else:
                    raise AnalysisError("cannot tell the patterns of the parser: %s" % show(v))
    return out


def run(ck):
    ck.rule("rejects", "there is no path through the validation that accepts a definition with this defect, wherever in the model it is")
    ck.rule("accepts", "a definition that is valid in this respect is not rejected on any path")
    ck.rule("reads", "every entry of a definition file ends up in the model that is validated, under its name, with all that it defines")
    ck.rule("validates", "the model that is returned has been validated, together with the upstream model")
    ck.rule("stops", "code that reads a definition does not go on after an error in it")
    ck.rule("parser", "member definitions are only accepted if they match one of the patterns, with a description where one is needed")
    ck.rule("fixed", "exactly the fixed width integer types that are supported are accepted")
    ck.assume("definitions are valid YAML with the documented nesting; the values of options, units and default values are not checked; "
              "what the patterns for members accept is not analysed")
    v = Validator(ck)
    components(v)
    datatypes(v)
    interfaces(v)
    links(v)
    reads(ck)
    stops(ck)
    parser(ck)
