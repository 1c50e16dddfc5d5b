"""P17: the data model registry"""
import json
import os

import yaml

from .. import frontend
from ..io import *
from ..reg import *
from ..reg import _opaque
from .p13 import element_of, mentions
from .p34 import collections

REGN = "podio::DatamodelRegistry"
MODEL_VERSION = tuple(int(x) for x in frontend.MODEL_VERSION.split("."))


def run(ck):
    ck.rule("register", "a data model that is known stays as it is, another one is added with its relation names, and the "
                        "position of the model is returned")
    ck.rule("lookup", "what is registered for a model is what is found for it, and nothing is found for others")
    ck.rule("relations", "for the name of a type or of its collection the relation names of this type are found")
    ck.rule("collector", "the definitions of the models of all collections are collected, with their names")
    ck.rule("holder", "the definitions and versions of a file are found under their names")
    ck.rule("index", "a collection refers to the model it was generated from")
    ck.rule("content", "the definition that is registered describes the model it was generated from")
    prog = ck.load("core", "cover")
    D, R, V = registry_fields(prog)
    register(ck, prog, D, R, V)
    lookups(ck, prog, D, V)
    models = model_args(ck, prog)
    for name, regs in models.items():
        content(ck, prog, name, regs)
    names = {}
    for regs in models.values():
        for r in regs:
            names.update(relation_names(prog, r) or {})
    relations_of(ck, prog, R, names)
    collector(ck, prog)
    holder(ck, prog)
    index(ck, prog, models)
    ck.need("register", 8)
    ck.need("lookup", 8)
    ck.need("relations", 25)
    ck.need("collector", 6)
    ck.need("holder", 8)
    ck.need("index", 23)
    ck.need("content", 30)


def registry_fields(prog):
    D = R = V = None
    for f in prog.recs[REGN]["fields"]:
        loc, t = F(THIS, f["n"]), f["t"]
        if "RelationNames" in t:
            R = loc
        elif "podio::version::Version" in t:
            V = loc
        elif "std::pair<" in t or "std::tuple<" in t:
            D = loc
    if None in (D, R, V):
        raise AnalysisError("the tables of the registry are unknown")
    return D, R, V


def proj(D):
    return ("proj", D, "first")


def present(o, D, name):
    """is name known to be registered (True / False / None)"""
    for cont in (proj(D),):
        v = in_table(o, cont, name)
        if v is not None:
            return v
    for a, v in o.tests.items():
        if a[0] == "eq" and v and name in a[1:] and any(is_name(x, D) for x in a[1:]):
            return True
    seen = [v for a, v in o.tests.items() if a[0] == "eq" and name in a[1:] and any(is_name(x, D) for x in a[1:])]
    if seen:
        return False
    for a, v in o.tests.items():
        if not v and a[0] == "nz" and a[1] == ("size", D):
            return False
        if a[0] == "eq" and v and a[1:] in ((C(0), ("size", D)), (("size", D), C(0))):
            return False
        if a[0] == "eq" and v and ("size", D) in a[1:] and any(x[0] == "ind" for x in a[1:]):
            return False
        if a[0] == "lt" and not v and a[2] == ("size", D):
            return False
    return None


def is_name(t, D):
    return t[0] == "get" and t[2] == 0 and t[1][0] == "elem" and t[1][1] == D


def partial(o, D, name):
    """was only a part of the table searched"""
    for a, v in o.tests.items():
        if a[0] == "eq" and not v and name in a[1:]:
            for x in a[1:]:
                if is_name(x, D) and x[1][2][0] == "ind" and is_c(x[1][2][2]) and x[1][2][2] != C(0):
                    return True
    return False


def place(t, o, D, name):
    """is t the position of the name"""
    if t == ("pos", proj(D), name) or t == ("pos", D, name):
        return True
    return o.tests.get(mk_eq(("get", ("elem", D, t), 0), name)) is True


def size_of(t, D):
    return t == ("size", D)


def register(ck, prog, D, R, V):
    fns = methods(prog, REGN, MODEL)
    ck.ob("register", "ways to register", len(fns) >= 2, "there are only %d" % len(fns))
    for fn in fns:
        name, text_ = par(fn, 0), par(fn, 1)
        rel = next((par(fn, i) for i, p in enumerate(fn.params) if "tuple" in p["t"] or "RelationNameMapping" in p["t"]), None)
        ver = next((par(fn, i) for i, p in enumerate(fn.params) if "Version" in p["t"]), None)
        if rel is None:
            raise AnalysisError("%s has no relation names" % fn)
        inst = "%s with %d arguments" % (fn.q, len(fn.params))
        new = known = False
        fallthrough = []
        for o in ck.outs(fn, once=True):
            if o.kind != "ret":
                continue
            W = "%s on path: %s" % (fn.loc, o.path()[:240])
            if impossible(o, name, D):
                continue
            here = present(o, D, name)
            ef = effects(o)
            for e in o.events:
                if e[0] in ("call", "wr"):
                    parts = e[3] if e[0] == "call" else (e[2],)
                    if any(gone(x) for x in parts if isinstance(x, tuple)):
                        ck.ob("register", inst, False, "uses the name after it was moved away", W)
            dd = [e for e in ef if has_prefix_in(e.loc, D)]
            rr = [e for e in ef if has_prefix_in(e.loc, R)]
            vv = [e for e in ef if has_prefix_in(e.loc, V)]
            other = [e for e in ef if e not in dd + rr + vv and has_prefix_in(e.loc, THIS)]
            ck.ob("register", inst, not other, "changes %s" % other[:2], W)
            if here is None:
                ck.ob("register", inst, not dd, "adds a model without knowing whether it is registered", W)
                continue
            if here:
                known = True
                keeps = all(e.kind in ("emplace", "try_emplace", "insert") for e in rr)
                ck.ob("register", inst, not [e for e in dd if e.kind != "reserve"] and keeps,
                      "changes a registered model: %s" % (dd + rr)[:2], W)
                ck.ob("register", inst, place(o.value, o, D, name), "returns %s for a registered model" % show(o.value), W)
            else:
                new = True
                ck.ob("register", inst, not partial(o, D, name), "does not search everything", W)
                adds = [e for e in dd if e.kind in ("push_back", "emplace_back")]
                ck.ob("register", inst, len(adds) == 1 and len(dd) == 1, "a new model is added %d times" % len(adds), W)
                if adds:
                    v = adds[0].args[0]
                    parts = v[2] if v[0] == "ctor" else tuple(x for _, x in v[2]) if v[0] == "agg" else ()
                    ck.ob("register", inst, len(parts) == 2 and parts[0] == name and parts[1] == text_,
                          "what is added is %s" % show(v), W)
                ck.ob("register", inst, size_of(o.value, D), "returns %s for a new model" % show(o.value), W)
                if not rr and nothing_to_add(o, rel):
                    continue
                els = [(e, x) for e in rr for x in [e.args[0] if e.args else None] if x is not None]
                if ran_none(o, rel):
                    continue    # nothing to add
                ok = bool(els)
                for e, key in els:
                    ok = ok and e.kind in ("emplace", "try_emplace", "insert", "insert_or_assign", "map[]")
                    ok = ok and relation_entry(o, e, rel)
                ck.ob("register", inst, ok, "the relation names are not all added: %s" % rr[:2], W)
            if ver is not None:
                ok = len(vv) == 1 and vv[0].kind in ("emplace", "try_emplace", "insert", "insert_or_assign")
                a = vv[0].args if ok else ()
                a = pair_args(a)
                ok = ok and len(a) == 2 and a[0] == name and a[1] == ver
                ck.ob("register", inst, ok or (here and not vv), "the version is not stored under the name: %s" % vv[:2], W)
                ck.ob("register", inst, not (here and vv and vv[0].kind == "insert_or_assign"), "replaces a version", W)
            else:
                ck.ob("register", inst, not vv, "stores versions %s" % vv[:2], W)
        ck.ob("register", inst, new and known, "does not distinguish new and known models", fn.loc)


def impossible(o, name, D):
    """found although the search went through everything"""
    eq = [v for a, v in o.tests.items() if a[0] == "eq" and name in a[1:] and any(is_name(x, D) for x in a[1:])]
    end = [v for a, v in o.tests.items() if a[0] == "eq" and ("size", D) in a[1:] and any(x[0] == "ind" for x in a[1:])]
    return True in eq and True in end


def gone(x):
    return any(t[0] == "gone" for t in subterms(x))


def has_prefix_in(loc, base):
    while isinstance(loc, tuple):
        if loc == base:
            return True
        if loc[0] in ("f", "elem", "deref", "get") and len(loc) > 1:
            loc = loc[1]
        else:
            return False
    return False


def pair_args(a):
    if len(a) == 1 and a[0][0] in ("ctor", "agg") and len(a[0][2]) == 2:
        p = a[0][2]
        return tuple(x for _, x in p) if a[0][0] == "agg" else tuple(p)
    return a


def ran_none(o, cont):
    """there are no elements on this path"""
    for a, v in o.tests.items():
        if a[0] == "eq" and ("size", cont) in a[1:] and v and any(x == C(0) or x[0] == "ind" and x[2] == C(0) for x in a[1:]) \
                and not any(e[0] == "endloop" for e in o.events):
            return True
    return False


def nothing_to_add(o, rel):
    """the element of the loop has neither relations nor vector members"""
    none = set()
    for t, v in o.tests.items():
        x = t[1] if t[0] == "nz" and not v else None
        if t[0] == "eq" and v and C(0) in t[1:]:
            x = t[1] if t[2] == C(0) else t[2]
        if x is not None and x[0] == "size" and x[1][0] == "get" and x[1][1][0] == "elem" and x[1][1][1] == rel:
            none.add((x[1][1], x[1][2]))
    return any((el, 1) in none and (el, 2) in none for el, _ in none)


def relation_entry(o, e, rel):
    a = pair_args(e.args)
    if len(a) < 2:
        return False
    key = a[0]
    if key[0] != "get" or key[2] != 0 or key[1][0] != "elem" or key[1][1] != rel:
        return False
    el = key[1]
    val = a[1:] if len(a) > 2 else (tuple(x for _, x in a[1][2]) if a[1][0] == "agg" else a[1][2] if a[1][0] == "ctor" else ())
    return tuple(val) == (("get", el, 1), ("get", el, 2)) and whole(o, rel, el[2])


# ------------------------------------------------------------------- lookups
def resolved(o, t):
    """the value of a static local"""
    for e in o.events:
        if e[0] == "static" and e[1] == t:
            return e[2]
    return t


def text_of(prog, o, t):
    v = text(prog, t)
    if v is None and t[0] == "g":
        v = text(prog, resolved(o, t))
    return v


def lookups(ck, prog, D, V):
    for nm, byname, slot_, none in (("getDatamodelDefinition", True, 1, "{}"), ("getDatamodelDefinition", False, 1, "{}"),
                                    ("getDatamodelName", False, 0, "")):
        fns = [f for f in methods(prog, REGN, nm, 1) if ("string" in f.params[0]["t"]) == byname]
        if len(fns) != 1:
            raise AnalysisError("%s not found" % nm)
        fn = fns[0]
        key = par(fn, 0)
        inst = "%s by %s" % (nm, "name" if byname else "index")
        hit = miss = False
        for o in ck.outs(fn, once=True):
            if o.kind != "ret":
                continue
            W = "%s on path: %s" % (fn.loc, o.path()[:240])
            if byname:
                if impossible(o, key, D):
                    continue
                here = present(o, D, key)
            else:
                here = in_bounds(o, key, D)
            changed = [e for e in effects(o) if has_prefix_in(e.loc, THIS)]
            ck.ob("lookup", inst, not changed, "changes %s" % changed[:2], W)
            v = o.value
            stored = v[0] == "get" and v[1][0] == "elem" and v[1][1] == D
            if here is None:
                ck.ob("lookup", inst, not stored, "the %s is not checked" % ("name" if byname else "index"), W)
            elif here:
                hit = True
                at = stored and (place(v[1][2], o, D, key) if byname else v[1][2] == key)
                ck.ob("lookup", inst, at and v[2] == slot_, "returns %s" % show(v), W)
            else:
                miss = True
                ck.ob("lookup", inst, text_of(prog, o, v) == none, "returns %s if there is none" % show(v), W)
                ck.ob("lookup", inst, not partial(o, D, key), "does not search everything", W)
        ck.ob("lookup", inst, hit and miss, "does not distinguish what exists", fn.loc)
    fn = method(prog, REGN, "getDatamodelVersion", 1)
    key = par(fn, 0)
    hit = miss = False
    for o in ck.outs(fn, once=True):
        if o.kind != "ret":
            continue
        W = "%s on path: %s" % (fn.loc, o.path()[:240])
        here = in_table(o, V, key)
        v = o.value
        changed = [e for e in effects(o) if has_prefix_in(e.loc, THIS)]
        ck.ob("lookup", "getDatamodelVersion", not changed, "changes %s" % changed[:2], W)
        if here:
            hit = True
            ck.ob("lookup", "getDatamodelVersion", v == ("some", ("get", ("elem", V, ("key", key)), 1)), "returns %s" % show(v), W)
        elif here is False:
            miss = True
            ck.ob("lookup", "getDatamodelVersion", v[0] == "nullopt", "returns %s for an unknown model" % show(v), W)
        else:
            ck.ob("lookup", "getDatamodelVersion", v[0] == "nullopt", "the name is not looked up", W)
    ck.ob("lookup", "getDatamodelVersion", hit and miss, "does not distinguish what exists", fn.loc)


def in_bounds(o, idx, cont):
    """decide idx < size from the tests of the path by trying values"""
    sz = ("size", cont)
    inside = any(possible(o, {idx: i, sz: n}) for i, n in ((0, 1), (0, 2), (1, 2), (4, 9), (8, 9)))
    outside = any(possible(o, {idx: i, sz: n}) for i, n in ((0, 0), (1, 1), (2, 1), (9, 9), (2**64 - 1, 4), (2**64 - 2, 4)))
    if inside and not outside:
        return True
    if outside and not inside:
        return False
    return None


# ------------------------------------------------------------ relation names
class Unknown(Exception):
    pass


def evaluate(prog, o, t, env):
    """the value of a term over strings and numbers"""
    if t in env:
        return env[t]
    k = t[0]
    ev = lambda x: evaluate(prog, o, x, env)
    if k == "c":
        return t[1][4:] if isinstance(t[1], str) and t[1].startswith("str:") else t[1]
    if k == "g":
        v = text_of(prog, o, t)
        if v is None:
            v = number(prog, t)
        if v is None and resolved(o, t) != t:
            return ev(resolved(o, t))
        if v is None:
            raise Unknown(show(t))
        return v
    if k == "size":
        return len(ev(t[1]))
    if k in ("add", "sub", "mul"):
        a, b = ev(t[1]), ev(t[2])
        return {"add": a + b, "sub": a - b, "mul": a * b}[k]
    if k == "ctor" and len(t[2]) == 1:
        return ev(t[2][0])
    if k == "ctor" and len(t[2]) == 2:
        return ev(t[2][0])[:ev(t[2][1])]
    if k in ("cast", "narrow", "moved", "gone"):
        return ev(t[-1])
    if k == "call":
        nm = short_call(t[1])
        if nm == 'operator""sv':
            return ev(t[3][0])
        if nm in ("size", "length") and t[2] is not None:
            return len(ev(t[2]))
        if nm in ("substr", "starts_with", "ends_with", "find", "rfind", "compare", "contains", "empty", "back", "front") and t[2] is not None:
            s = ev(t[2])
            a = [ev(x) for x in t[3] if isinstance(x, tuple) and x[0] != "targs"]
            return string_call(nm, s, a)
    if k in ("eq", "lt", "le"):
        a, b = ev(t[1]), ev(t[2])
        if k != "eq" and isinstance(a, int):
            a, b = a % 2**64, b % 2**64
        return {"eq": a == b, "lt": a < b, "le": a <= b}[k]
    if k == "not":
        return not ev(t[1])
    if k == "and":
        return all(ev(x) for x in t[1:])
    if k == "or":
        return any(ev(x) for x in t[1:])
    if k == "nz":
        v = ev(t[1])
        return v != 0 if isinstance(v, int) else bool(v)
    raise Unknown(show(t))


NPOS = (-1, 2**64 - 1)


def string_call(nm, s, a):
    if nm == "substr":
        p = a[0] if a else 0
        p %= 2**64
        if p > len(s):
            raise Unknown("outside of the text")
        n = a[1] if len(a) > 1 else -1
        return s[p:] if n in NPOS else s[p:p + n]
    if nm == "starts_with":
        return s.startswith(a[0])
    if nm == "ends_with":
        return s.endswith(a[0])
    if nm == "contains":
        return a[0] in s
    if nm in ("find", "rfind") and len(a) >= 1:
        p = a[1] if len(a) > 1 else (0 if nm == "find" else -1)
        if nm == "find":
            r = s.find(a[0], p % 2**64)
        else:
            r = s.rfind(a[0]) if p in NPOS else s.rfind(a[0], 0, p + len(a[0]))
        return r
    if nm == "compare":
        if len(a) == 1:
            return (s > a[0]) - (s < a[0])
        x = string_call("substr", s, a[:2])
        return (x > a[2]) - (x < a[2])
    if nm == "empty":
        return not s
    if nm in ("back", "front"):
        return s[-1 if nm == "back" else 0] if s else None
    raise Unknown(nm)


def no_elements(prog, o, t):
    return listed(prog, o, t) == []


def listed(prog, o, t):
    """the texts in a container"""
    t = resolved(o, t)
    if t[0] == "obj":
        return [] if not any(e[0] == "call" and e[2] == t and short_call(e[1]) in MUTATORS for e in o.events) else None
    if t[0] == "agg" and (t[1].startswith("const std::string_view[") or t[1].startswith("std::initializer_list") or "[" in t[1]):
        return [text_of(prog, o, x) for _, x in t[2]]
    if t[0] == "agg":
        return [text_of(prog, o, x) for _, x in t[2]]
    if t[0] == "ctor":
        if not t[2]:
            return []
        return listed(prog, o, t[2][0])
    return None


def relations_of(ck, prog, R, known):
    fn = method(prog, REGN, "getRelationNames", 1)
    key = par(fn, 0)
    outs = [o for o in ck.outs(fn, once=True) if o.kind == "ret"]
    cases = []
    for ty in known:
        cases.append((ty, ty))
        cases.append((ty + "Collection", ty))
    cases += [("podio::LinkCollection<PlainHit,cov::Cluster>", "link"), ("podio::Link<PlainHit,cov::Cluster>", "link"),
              ("podio::LinkCollection<cov::Particle,ns::SomeCollection>", "link"),
              ("podio::UserDataCollection<float>", None), ("podio::UserDataCollection<uint64_t>", None),
              ("Unknown", None), ("ns::UnknownCollection", None), ("", None), ("Collection", None), ("Collectio", None)]
    # types whose own name ends like that of a collection
    hyp = {"ns::TrackCollection": "ns::TrackCollection", "ns::TrackCollectionCollection": "ns::TrackCollection",
           "SubCollection": "SubCollection", "SubCollectionCollection": "SubCollection"}
    for name, want in cases:
        one(ck, prog, fn, outs, key, R, set(known), name, want)
    for name, want in hyp.items():
        one(ck, prog, fn, outs, key, R, set(known) | {"ns::TrackCollection", "SubCollection"}, name, want,
            "a type that is itself called a collection")


def one(ck, prog, fn, outs, key, R, known, name, want, inst=None):
    inst = inst or "relation names of " + (name or "the empty name")
    taken = None
    for o in outs:
        ok = True
        for a, v in o.tests.items():
            try:
                if a[0] == "has" and a[1] == R:
                    b = evaluate(prog, o, a[2], {key: name}) in known
                else:
                    b = evaluate(prog, o, a, {key: name})
            except Unknown as e:
                raise AnalysisError("%s: cannot decide %s for %s: %s" % (fn.loc, show(a), name, e))
            if bool(b) != v:
                ok = False
                break
        if ok:
            taken = o
            break
    if taken is None:
        raise AnalysisError("%s: no path for %s" % (fn.loc, name))
    o, v = taken, taken.value
    got = None
    if v[0] == "get" and v[2] == 1 and v[1][0] == "elem" and v[1][1] == R and v[1][2][0] == "key":
        got = evaluate(prog, o, v[1][2][1], {key: name})
        ck.ob("relations", inst, got == want, "for %s the names of %s are found" % (name, got), fn.loc)
        return
    if v[0] in ("agg", "ctor"):
        parts = [x for _, x in v[2]] if v[0] == "agg" else list(v[2])
        ls = [listed(prog, o, x) for x in parts]
        if want == "link":
            ck.ob("relations", inst, ls == [["from", "to"], []], "are %s" % ls, fn.loc)
        elif want is None:
            ck.ob("relations", inst, ls == [[], []], "are %s" % ls, fn.loc)
        else:
            ck.ob("relations", inst, False, "nothing is found for %s" % name, fn.loc)
        return
    raise AnalysisError("%s: cannot read %s" % (fn.loc, show(v)))


# ----------------------------------------------------------------- collector
def collector(ck, prog):
    rec = "podio::DatamodelDefinitionCollector"
    sets = [F(THIS, f["n"]) for f in prog.recs[rec]["fields"]]
    fn = method(prog, rec, "registerDatamodelDefinition", 2)
    for o in ck.outs(fn, once=True):
        if o.kind != "ret":
            continue
        W = "%s on path: %s" % (fn.loc, o.path()[:240])
        idx = {e[4] for e in o.events if e[0] == "call" and short_call(e[1]) == "getDatamodelRegistryIndex" and e[2] == ("deref", par(fn, 0))}
        if len(idx) != 1 or None in idx:
            ck.ob("collector", "registerDatamodelDefinition", False, "does not ask the collection for its model", W)
            continue
        idx = idx.pop()
        ins = [e for e in effects(o) if has_prefix_in(e.loc, THIS)]
        ok = all(e.loc in sets and e.kind in ("insert", "emplace", "push_back") and e.args[-1] == idx for e in ins)
        ck.ob("collector", "registerDatamodelDefinition", ok, "adds %s" % ins[:2], W)
        for val, txt in ((-1, "no model"), (-2, "an unknown model"), (0, "the first model"), (1, "a model"), (7, "a model"), (70000, "a model")):
            if not possible_index(o, idx, val):
                continue
            ck.ob("collector", "collection of " + txt, bool(ins) == (val >= 0),
                  "the model is %s" % ("collected" if ins else "not collected"), W)
    fn = method(prog, rec, "getDatamodelDefinitionsToWrite", 0)
    good = 0
    for o in ck.outs(fn, once=True):
        if o.kind != "ret":
            continue
        W = "%s on path: %s" % (fn.loc, o.path()[:240])
        changed = [e for e in effects(o) if has_prefix_in(e.loc, THIS)]
        ck.ob("collector", "getDatamodelDefinitionsToWrite", not changed, "changes %s" % changed[:2], W)
        adds = [e for e in effects(o, local=True) if e.loc == o.value and e.kind in ("push_back", "emplace_back")]
        bad_index = any(a[0] == "lt" and not v and a[2][0] == "size" and a[1][0] == "elem" for a, v in o.tests.items())
        if bad_index:
            continue    # not registered
        if not adds:
            if any(e[0] == "endloop" for e in o.events):
                ck.ob("collector", "getDatamodelDefinitionsToWrite", False, "a model is left out", W)
            continue
        v = adds[0].args[0]
        parts = v[2] if v[0] == "ctor" else tuple(x for _, x in v[2]) if v[0] == "agg" else ()
        parts = tuple(x[2][0] if x[0] == "ctor" and len(x[2]) == 1 else x for x in parts)
        ok = len(adds) == 1 and len(parts) == 2 and all(p[0] == "get" and p[1][0] == "elem" for p in parts) and \
            parts[0][1] == parts[1][1] and parts[0][2] == 0 and parts[1][2] == 1
        if ok:
            at = parts[0][1][2]
            ok = at[0] == "elem" and at[1] in sets and whole(o, at[1], at[2])
        good += 1
        ck.ob("collector", "getDatamodelDefinitionsToWrite", ok, "writes %s" % show(v), W)
    ck.ob("collector", "getDatamodelDefinitionsToWrite", good > 0, "nothing is written", fn.loc)


def possible_index(o, idx, val):
    """can the path be taken by an index (size_t)"""
    u = val % 2**64
    for a, v in o.tests.items():
        if not contains(a, idx):
            continue
        if a[0] == "nz" and a[1] == idx:
            h = u != 0
        elif a[0] in ("eq", "lt", "le"):
            x, y = (u if t == idx else t[1] % 2**64 if is_c(t) and isinstance(t[1], int) else None for t in a[1:3])
            if x is None or y is None:
                continue
            h = {"eq": x == y, "lt": x < y, "le": x <= y}[a[0]]
        else:
            continue
        if h != v:
            return False
    return True


# -------------------------------------------------------------------- holder
def holder(ck, prog):
    rec = "podio::DatamodelDefinitionHolder"
    defs = vers = None
    for f in prog.recs[rec]["fields"]:
        if "podio::version::Version" in f["t"]:
            vers = F(THIS, f["n"])
        else:
            defs = F(THIS, f["n"])
    if defs is None or vers is None:
        raise AnalysisError("the tables of the definition holder are unknown")
    n = 0
    for fn in prog.by_rec[rec]:
        if fn.kind == "ctor" and len(fn.params) == 2:
            n += 1
            for o in ck.outs(fn, once=True):
                ok = o.load(defs) == par(fn, 0) and o.load(vers) == par(fn, 1)
                ck.ob("holder", "construction", ok, "stores %s and %s" % (show(o.load(defs)), show(o.load(vers))), fn.loc)
    if not n:
        raise AnalysisError("the definition holder cannot be constructed")
    common = "podio::ReaderCommon"
    held = next((F(THIS, f["n"]) for f in prog.recs[common]["fields"] if f["t"].endswith("DatamodelDefinitionHolder")), None)
    if held is None:
        raise AnalysisError("readers have no definitions")
    sub = lambda t: F(held, t[2])
    search(ck, prog, method(prog, rec, "getDatamodelDefinition", 1), defs, "{}", "holder")
    search(ck, prog, method(prog, rec, "getDatamodelVersion", 1), vers, None, "holder")
    search(ck, prog, method(prog, common, "getDatamodelDefinition", 1), sub(defs), "{}", "readers")
    search(ck, prog, method(prog, common, "currentFileVersion", 1), sub(vers), None, "readers")
    for r, D in ((rec, defs), (common, sub(defs))):
        fn = method(prog, r, "getAvailableDatamodels", 0)
        good = 0
        for o in ck.outs(fn, once=True):
            if o.kind != "ret":
                continue
            adds = [e for e in effects(o, local=True) if e.loc == o.value and e.kind in ("push_back", "emplace_back")]
            for e in adds:
                v = e.args[0]
                v = v[2][0] if v[0] == "ctor" and len(v[2]) == 1 else v
                ok = v[0] == "get" and v[2] == 0 and v[1][0] == "elem" and v[1][1] == D and whole(o, D, v[1][2])
                good += ok
                ck.ob("holder", "getAvailableDatamodels", ok, "lists %s" % show(v), fn.loc)
        ck.ob("holder", "getAvailableDatamodels", good > 0, "the models are not listed", fn.loc)
    fv = next((F(THIS, f["n"]) for f in prog.recs[common]["fields"] if f["t"] == "podio::version::Version"), None)
    fn = method(prog, common, "currentFileVersion", 0)
    for o in ck.outs(fn):
        ck.ob("holder", "file version", o.load(o.value) == fv or o.value == fv, "is %s" % show(o.value), fn.loc)


def search(ck, prog, fn, D, none, who):
    key = par(fn, 0)
    inst = "%s of %s" % (fn.name, who)
    hit = miss = 0
    for o in ck.outs(fn, once=True):
        if o.kind != "ret" or impossible(o, key, D):
            continue
        W = "%s on path: %s" % (fn.loc, o.path()[:240])
        here = present(o, D, key)
        v = o.value
        changed = [e for e in effects(o) if has_prefix_in(e.loc, THIS)]
        ck.ob("holder", inst, not changed, "changes %s" % changed[:2], W)
        if v[0] == "some":
            v = v[1]
        if v[0] == "ctor" and len(v[2]) == 1:
            v = v[2][0]
        stored = v[0] == "get" and v[1][0] == "elem" and v[1][1] == D
        if here is None:
            ck.ob("holder", inst, not stored, "the name is not checked", W)
        elif here:
            hit += 1
            ck.ob("holder", inst, stored and v[2] == 1 and place(v[1][2], o, D, key), "returns %s" % show(o.value), W)
        else:
            miss += 1
            ok = v[0] == "nullopt" if none is None else text_of(prog, o, v) == none
            ck.ob("holder", inst, ok, "returns %s if there is none" % show(o.value), W)
            ck.ob("holder", inst, not partial(o, D, key), "does not search everything", W)
    ck.ob("holder", inst, hit and miss, "does not distinguish what exists", fn.loc)


# --------------------------------------------------------------------- index
def model_args(ck, prog):
    """the registrations of each model when its library is loaded"""
    out = {}
    for r in registrations(ck):
        if r.kind == MODEL:
            out.setdefault(text(prog, r.args[0]), []).append(r)
    ck.ob("index", "registration of the model", "cover" in out, "the models %s are registered" % sorted(map(str, out)))
    return out


def index(ck, prog, models):
    for rec in collections(ck):
        fn = method(prog, rec, "getDatamodelRegistryIndex", 0)
        for o in ck.outs(fn, once=True, opaque=_opaque, okey="reg"):
            if o.kind != "ret":
                continue
            W = "%s on path: %s" % (fn.loc, o.path()[:240])
            if rec.startswith("podio::"):
                ck.ob("index", rec, is_c(o.value) and o.value[1] in (-1, 2**64 - 1), "is %s" % show(o.value), W)
                continue
            calls = [e for e in o.events if e[0] == "call" and short_call(e[1]) == MODEL]
            v = o.value
            vals = {v, o.load(v)}
            if v[0] == "f" and resolved(o, v[1]) != v[1]:
                vals.add(o.load(F(resolved(o, v[1]), v[2])))
            vals.add(resolved(o, v))
            ok = [e for e in calls if e[4] in vals]
            ck.ob("index", rec, len(ok) == 1, "is %s" % show(v), W)
            for e in ok:
                name = text_of(prog, o, e[3][0])
                want = next((m.name for m in all_models() if any(d.coll == rec for d in m.datatypes)), None)
                ck.ob("index", rec, name == want, "refers to the model %s" % name, W)
                for a in e[3][1:3]:
                    ck.ob("index", rec, a[0] in ("g", "c"), "refers to %s, which does not last" % show(a), W)


# ------------------------------------------------------------------- content
def relation_names(prog, r):
    """what is registered: type -> (relations, vector members)"""
    rel = next((a for a in r.args[2:] if "tuple" in str(resolved(r.o, a))[:400]), None)
    if rel is None:
        return None
    v = resolved(r.o, rel)
    while v[0] == "ctor" and v[2]:
        v = v[2][0]
    if v[0] != "agg":
        return None
    out = {}
    for _, x in v[2]:
        while x[0] == "ctor" and len(x[2]) == 1:
            x = x[2][0]
        parts = [p for _, p in x[2]] if x[0] == "agg" else list(x[2])
        out[text(prog, parts[0])] = tuple(listed(prog, r.o, p) for p in parts[1:3])
    return out


INTS = ("int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t")


def member(txt):
    m = MEMBER.match(txt)
    if not m:
        return txt
    t = m.group("at") or m.group("t")
    t = "std::" + t if t in INTS else t
    doc = txt.partition("//")[2].strip()
    return (t.strip(), m.group("n"), m.group("name"), m.group("init"), m.group("unit"), doc)


LISTS = ("Members", "VectorMembers", "OneToManyRelations", "OneToOneRelations")


def content(ck, prog, name, regs):
    for r in regs:
        path = os.path.join(frontend.MODELS, "%s.yaml" % name)
        if not os.path.exists(path):
            ck.ob("content", "name of the model", False, "there is no model %s" % name, r.where)
            continue
        with open(path) as f:
            want = yaml.safe_load(f)
        raw = text(prog, r.args[1])
        if raw is None:
            raise AnalysisError("%s: the definition is not a text: %s" % (r.where, show(r.args[1])))
        try:
            got = json.loads(raw)
        except ValueError as e:
            ck.ob("content", "definition of " + name, False, "is no JSON: %s" % e, r.where)
            continue
        ck.ob("content", "definition of " + name, got.get("schema_version") == want.get("schema_version"),
              "has schema version %s" % got.get("schema_version"), r.where)
        for k, v in want.get("options", {}).items():
            ck.ob("content", "option " + k, bool(got.get("options", {}).get(k)) == bool(v), "is %s" % got.get("options", {}).get(k), r.where)
        for sec in ("components", "datatypes", "interfaces", "links"):
            a, b = got.get(sec) or {}, want.get(sec) or {}
            ck.ob("content", sec, sorted(a) == sorted(b), "are %s instead of %s" % (sorted(a), sorted(b)), r.where)
            for k in sorted(set(a) & set(b)):
                same(ck, "definition of " + k, a[k], b[k], r.where)
        v = r.args[3] if len(r.args) > 3 else None
        v = v and (tuple(x for _, x in v[2]) if v[0] == "agg" else v)
        ck.ob("content", "version of " + name, v == tuple(C(i) for i in MODEL_VERSION), "is %s" % (v and [show(x) for x in v]), r.where)
        rel = relation_names(prog, r)
        if rel is None:
            raise AnalysisError("%s: relation names are unknown" % r.where)
        edm = EDM(name)
        ck.ob("content", "types with relation names", sorted(rel) == sorted(d.full for d in edm.datatypes),
              "are %s" % sorted(rel), r.where)
        for dt in edm.datatypes:
            if dt.full not in rel:
                continue
            many, vecs = rel[dt.full]
            c = next((c for c in all_colls(ck) if c.rec == dt.coll), None)
            order = slots(ck, c, dt)
            ck.ob("content", "relation names of " + dt.full, many == order,
                  "are %s instead of %s" % (many, order), r.where)
            ck.ob("content", "relation names of " + dt.full, vecs == [m.name for m in dt.vecs],
                  "are %s for the vector members" % vecs, r.where)


def slots(ck, c, dt):
    """names of the relations in the order of the buffers they are stored in"""
    st = Storage(c)
    at = {}
    for o in ck.outs(c.m("prepareForWrite", 0), solo=True, assume=st.alive()):
        if c.sub(o) is not False:
            continue
        for e in effects(o):
            k = slot(st, e.loc) if e.kind in FILL and e.args else None
            if k is None:
                continue
            for r in rels_of(ck, c, dt):
                if r.kind == "one" and mentions(e.args[0], r.field) or \
                        r.kind == "many" and element_of(c, r, handle_of_id(e.args[0])):
                    at.setdefault(k, set()).add(r.name)
    n = len(dt.many) + len(dt.ones)
    if sorted(at) != list(range(n)) or any(len(v) != 1 for v in at.values()):
        raise AnalysisError("the buffers of the relations of %s are unknown: %s" % (dt.full, at))
    return [at[k].pop() for k in sorted(at)]


_rels = {}


def rels_of(ck, c, dt):
    if c.rec not in _rels:
        _rels[c.rec] = relations(ck, c, dt)
    return _rels[c.rec]


def same(ck, inst, a, b, where):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if k in LISTS:
            x, y = [member(m) for m in x or []], [member(m) for m in y or []]
        if not x and not y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            x, y = x.strip(), y.strip()
        ck.ob("content", inst, x == y, "%s is %s instead of %s" % (k, x, y), where)
    ck.ob("content", inst, True)
