"""P18: parameters keep each type apart and return what was set"""
from ..sem import *

T = "podio::GenericParameters"
TYPES = {"int": "int", "float": "float", "double": "double", "std::string": "string"}


def elem_type(fn):
    """the parameter type an instantiation is for, and whether it is a vector"""
    a = (fn.targs or [""])[0]
    vec = a.startswith("std::vector<")
    if vec:
        a = a[len("std::vector<"):]
    for k in TYPES:
        if a == k or a.startswith((k + ",", k + ">", k + " >")):
            return k, vec
    if "basic_string" in a or "string" in a:
        return "std::string", vec
    return None, vec


def entry(m, key):
    return ("get", ("elem", m, ("key", key)), 1)


def single(v):
    """the only element of a vector value that was built from one element"""
    if v[0] == "ctor" and "vector" in v[1]:
        for a in v[2]:
            if a[0] == "agg" and len(a[2]) == 1:
                return a[2][0][1]
    if v[0] == "agg" and len(v[2]) == 1:
        return v[2][0][1]
    return None


def run(ck):
    ck.rule("own-map", "all operations of one parameter type use the map of that type, single values and vectors alike, "
                       "and every type has a map of its own")
    ck.rule("set", "setting a parameter stores exactly the given value under exactly the given name, replacing the old one")
    ck.rule("get", "getting returns the stored value, or for single values its first element, and nothing exactly if there is none")
    ck.rule("count", "the number of elements is that of the stored value, and 0 if there is none")
    ck.rule("bulk", "the bulk getters return the name and the value of every entry")
    ck.rule("load", "bulk loading stores every given value under the name at the same position")
    ck.rule("copy", "copying, moving and assigning transfer the map of each type to the map of the same type")
    ck.rule("whole", "clearing, testing for emptiness and printing concern the maps of all types")
    ck.rule("forward", "the functions of the frame pass name and value on to the parameters of the same type")
    prog = ck.load("core")
    fns = prog.by_rec[T]
    maps = {}      # type -> location

    def thismap(loc):
        return loc[0] == "f" and loc[1] == THIS

    def same(ty, loc, fn, w):
        exp = maps.setdefault(ty, loc)
        others = [t for t, l in maps.items() if l == loc and t != ty]
        ck.ob("own-map", "%s<%s>" % (fn.name, (fn.targs or [ty])[0][:60]), loc == exp and not others,
              "%s parameters are in %s here and in %s elsewhere%s" % (ty, show(loc), show(exp), others), w)

    # ------------------------------------------------------------------ set
    done = set()
    for fn in fns:
        if fn.name != "set":
            continue
        ty, vec = elem_type(fn)
        if ty is None:
            # overloads for literals and initializer lists
            t = fn.params[1]["t"]
            ty = next((k for k in ("int", "float", "double") if "<" + k in t), "std::string")
            vec = "vector" in t or "initializer_list" in t
        K, V = par(fn, 0), par(fn, 1)
        done.add((ty, vec))
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path())
            eff = [e for e in effects(o) if has_prefix(e.loc, THIS)]
            inst = "set(%s)" % fn.params[1]["t"][:60]
            if o.kind != "ret":
                ck.ob("set", inst, False, "throws", w)
                continue
            tgt, key, val = None, None, None
            if len(eff) == 1 and eff[0].kind == "insert_or_assign":
                tgt, key, val = eff[0].loc, eff[0].args[0], eff[0].args[1]
            else:
                wr = [e for e in eff if e.kind == "wr"]
                rest = [e for e in eff if e.kind not in ("wr", "map[]")]
                if len(wr) == 1 and not rest and wr[0].loc[0] == "get" and wr[0].loc[2] == 1:
                    l = wr[0].loc
                    tgt, key, val = l[1][1], l[1][2][1], wr[0].args[0]
            if tgt is None:
                ck.ob("set", inst, False, "does not store the value exactly once, replacing the old one: %r" % eff, w)
                continue
            same(ty, tgt, fn, w)
            ok = val == V if vec else single(val) == V or val == V
            if not ok and vec:
                ok = contains(val, V) and not [x for x in subterms(val) if x[0] in ("bin", "add", "sub")] and val[0] in ("ctor", "f")
            ck.ob("set", inst, key == K, "stores under " + show(key), w)
            ck.ob("set", inst, ok, "stores " + show(val), w)
    for k in TYPES:
        for vec in (False, True):
            if (k, vec) not in done:
                from ..frontend import AnalysisError
                raise AnalysisError("no set for %s vector=%s" % (k, vec))
    for k, loc in maps.items():
        fld = [f for f in prog.recs[T]["fields"] if F(THIS, f["n"]) == loc]
        ck.ob("own-map", "field for " + k, len(fld) == 1 and fld[0]["acc"] == "private" and
              (("vector<" + k) in fld[0]["t"] or k == "std::string" and "vector<std::basic_string" in fld[0]["t"] or
               k == "std::string" and "vector<std::string" in fld[0]["t"]),
              "the type of the map is %s" % (fld and fld[0]["t"]), "")
    # ------------------------------------------------------- get, getN, bulk
    for fn in fns:
        ty, vec = elem_type(fn)
        if fn.name not in ("get", "getN", "getKeys", "getKeysAndValues", "loadFrom", "getMap") or ty is None:
            continue
        m = maps[ty]
        inst = "%s<%s>" % (fn.name, "vector<%s>" % ty if vec else ty)
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path())
            if fn.name != "loadFrom":
                used = {t for v in ([o.value] if o.value else []) + list(o.tests) for t in subterms(v) if t[0] == "f" and t[1] == THIS}
                bad = used - {m}
                ck.ob("own-map", inst, not bad, "uses %s" % [show(b) for b in bad], w)
                ck.ob("get", inst, not effects(o), "changes the parameters: %r" % effects(o), w)
            if o.kind != "ret":
                ck.ob("get", inst, False, "throws", w)
                continue
            if fn.name == "get":
                K = par(fn, 0)
                ent = entry(m, K)
                has = in_table(o, m, K)
                if o.value[0] == "nullopt":
                    empty = any(a[0] == "nz" and a[1] == ("size", ent) and not v for a, v in o.tests.items())
                    ck.ob("get", inst, has is False or (not vec and empty), "has nothing although the parameter exists", w)
                else:
                    v = o.value[1] if o.value[0] == "some" else o.value
                    ok = v == ent if vec else v == ("elem", ent, C(0))
                    ck.ob("get", inst, ok and has is True, "returns " + show(o.value), w)
            elif fn.name == "getN":
                K = par(fn, 0)
                has = in_table(o, m, K)
                if has is True:
                    ok = o.value == ("size", entry(m, K)) or o.value == C(0) and any(
                        a[0] == "nz" and a[1] == ("size", entry(m, K)) and not v for a, v in o.tests.items())
                    ck.ob("count", inst, ok, "counts " + show(o.value), w)
                else:
                    ck.ob("count", inst, has is False and o.value == C(0), "counts %s for a missing parameter" % show(o.value), w)
            elif fn.name in ("getKeys", "getKeysAndValues"):
                pushes = [e for e in effects(o, local=True) if e.kind in ("push_back", "emplace_back", "append_range", "insert")]
                looped = [e for e in pushes]
                if not looped and any(e[0] == "noloop" for e in o.events) or any(
                        (a[0] == "nz" and a[1] == ("size", m) and not v) or
                        (a[0] == "eq" and ("size", m) in a[1:] and v and any(x[0] == "ind" for x in a[1:])) for a, v in o.tests.items()):
                    if not looped:
                        continue    # nothing stored
                keys = [e for e in pushes if e.args[0][0] == "get" and e.args[0][2] == 0 and e.args[0][1][0] == "elem" and e.args[0][1][1] == m]
                vals = [e for e in pushes if e.args[0][0] == "get" and e.args[0][2] == 1 and e.args[0][1][0] == "elem" and e.args[0][1][1] == m]
                n = 2 if fn.name == "getKeysAndValues" else 1
                ok = len(keys) == 1 and len(pushes) == n and len(vals) == n - 1
                ck.ob("bulk", inst, ok, "does not collect every entry: %r" % pushes, w)
                if ok:
                    loops = [e for e in o.events if e[0] == "loop"]
                    i = keys[0].args[0][1][2]
                    ck.ob("bulk", inst, i[0] == "ind" and (len(i) < 4 or i[2] in (0, C(0)) and i[3] == 1) and
                          (not vals or vals[0].args[0][1][2] == i), "does not go through all entries in order", w)
                    v = o.value
                    if n == 1:
                        ck.ob("bulk", inst, v == keys[0].loc or contains(v, keys[0].loc), "returns something else", w)
                    else:
                        order = [x for x in subterms(v) if x in (keys[0].loc, vals[0].loc)]
                        ck.ob("bulk", inst, order[:1] == [keys[0].loc] and vals[0].loc in order, "returns something else", w)
            elif fn.name == "loadFrom":
                eff = [e for e in effects(o) if has_prefix(e.loc, THIS)]
                A, B = par(fn, 0), par(fn, 1)
                if not eff:
                    empty = any((a[0] in ("lt",) and not v and a[2] == ("size", x)) or (a[0] == "nz" and a[1] == ("size", x) and not v)
                                or (a[0] == "eq" and v and ("size", x) in a[1:]) for a, v in o.tests.items() for x in (A, B))
                    ck.ob("load", inst, empty, "does not store anything", w)
                    continue
                if len(eff) == 2 and eff[0].kind == "map[]":
                    eff = eff[1:]
                e = eff[0]
                if e.kind == "wr" and e.loc[0] == "get":
                    tgt, k, v = e.loc[1][1], e.loc[1][2][1], e.args[0]
                else:
                    tgt, k, v = e.loc, e.args[0], e.args[1] if len(e.args) > 1 else NULL
                same(ty, tgt, fn, w)
                ok = len(eff) == 1 and k[0] == "elem" and k[1] == A and v[0] == "elem" and v[1] == B and k[2] == v[2] and k[2][0] == "ind"
                ck.ob("load", inst, ok, "stores %s under %s" % (show(v), show(k)), w)
                if ok:
                    ind = k[2]
                    ck.ob("load", inst, len(ind) < 4 or (ind[2] == C(0) and ind[3] == 1), "does not load all entries", w)
            elif fn.name == "getMap":
                ck.ob("own-map", inst, o.value == m, "hands out " + show(o.value), w)
    # ------------------------------------------------------------------ copy
    for fn in fns:
        if fn.kind in ("copyctor", "movector", "moveasg", "copyasg"):
            for o in ck.outs(fn):
                src = par(fn, 0)
                for ty, m in maps.items():
                    got = o.load(m)
                    exp = ("f", src, m[2])
                    ck.ob("copy", "%s %s" % (fn.kind, ty), got == exp, "%s is %s" % (show(m), show(got)), fn.loc)
        if fn.name == "clear":
            for o in ck.outs(fn):
                eff = [e for e in effects(o)]
                for ty, m in maps.items():
                    e = [x for x in eff if x.loc == m]
                    ok = bool(e) and e[-1].kind in ("clear", "wr")
                    ck.ob("whole", "clear " + ty, ok, "keeps the %s parameters" % ty, fn.loc)
        if fn.name == "empty":
            for o in ck.outs(fn):
                w = "%s on path: %s" % (fn.loc, o.path())
                v = truth(o.value)
                st = {}
                for ty, m in maps.items():
                    for a, tv in o.tests.items():
                        if a[0] == "nz" and a[1] == ("size", m):
                            st[ty] = not tv
                if not is_c(v):
                    # the last map decides
                    a, p = (v[1], False) if v[0] == "not" else (v, True)
                    last = [ty for ty, m in maps.items() if a == ("nz", ("size", m))]
                    ok = len(last) == 1 and not p and all(st.get(t) is True for t in maps if t not in last)
                elif v == C(True):
                    ok = all(st.get(t) is True for t in maps)
                else:
                    ok = any(st.get(t) is False for t in maps)
                ck.ob("whole", "empty", ok, "answers %s" % show(o.value), w)
        if fn.name == "print":
            seen = set()
            for o in ck.outs(fn, once=True, opaque=lambda f: f.get("n") in ("operator<<", "setw"), okey="print"):
                for e in o.events:
                    for x in e[1:]:
                        if isinstance(x, tuple):
                            seen |= {t for t in subterms(x) if t[0] in ("f", "elem") and root_of(t) == THIS}
            for ty, m in maps.items():
                ck.ob("whole", "print " + ty, any(has_prefix(s, m) for s in seen), "does not print the %s parameters" % ty, fn.loc)
    # ----------------------------------------------------------------- frame
    def op(f):
        return f.get("rec") == T
    for fn in prog.by_rec.get("podio::Frame", []):
        if fn.name not in ("putParameter", "getParameter", "getParameterKeys"):
            continue
        for o in ck.outs(fn, opaque=op, okey="fwd"):
            calls = [e for e in o.events if e[0] == "call" and e[7].get("rec") == T]
            inst = "%s<%s>(%s)" % (fn.name, (fn.targs or [""])[0][:40], ", ".join(p["t"][:30] for p in fn.params[1:]))
            w = "%s on path: %s" % (fn.loc, o.path())
            ck.ob("forward", inst, len(calls) == 1, "does not access the parameters exactly once", w)
            if len(calls) != 1:
                continue
            e = calls[0]
            want = {"putParameter": "set", "getParameter": "get", "getParameterKeys": "getKeys"}[fn.name]
            ck.ob("forward", inst, short_call(e[1]) == want, "uses " + e[1], w)
            P = [("par", p["v"]) for p in fn.params]
            ok = list(e[3]) == P or (len(P) == 2 and len(e[3]) == 2 and e[3][0] == P[0] and contains(e[3][1], P[1]))
            ck.ob("forward", inst, ok, "passes on %s" % [show(a) for a in e[3]], w)
            cal = prog.funcs.get(e[7]["id"])
            if cal is not None and fn.targs and cal.targs:
                ck.ob("forward", inst, elem_type(cal) == elem_type(fn) or fn.name == "putParameter" and "initializer_list" in fn.params[1]["t"],
                      "uses parameters of another type: %s" % cal.targs, w)
            if fn.name != "putParameter":
                ck.ob("forward", inst, o.value == e[4], "returns " + show(o.value), w)
    ck.need("own-map", 40)
    ck.need("set", 16)
    ck.need("get", 30)
    ck.need("count", 8)
    ck.need("bulk", 8)
    ck.need("load", 4)
    ck.need("copy", 8)
    ck.need("whole", 9)
    ck.need("forward", 30)
