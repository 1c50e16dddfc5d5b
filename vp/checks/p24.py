"""P24: user data collections hold exactly the stored values"""
import re

from ..io import *
from .p10 import rebase_to

T = "podio::UserDataCollection<"
BASIC = {"float": "float", "double": "double", "signed char": "int8_t", "short": "int16_t", "int": "int32_t", "long": "int64_t",
         "unsigned char": "uint8_t", "unsigned short": "uint16_t", "unsigned int": "uint32_t", "unsigned long": "uint64_t"}
ITER = {"begin": ("it", 0), "cbegin": ("it", 0), "end": ("it", 1), "cend": ("it", 1),
        "rbegin": ("rit", 0), "crbegin": ("rit", 0), "rend": ("rit", 1), "crend": ("rit", 1)}
ORDINARY = {"at", "operator[]", "size", "empty", "push_back", "create", "resize", "clear", "getBuffers", "setID", "getID", "hasID",
            "isValid", "isSubsetCollection", "setSubsetCollection", "setReferences", "prepareForWrite", "prepareAfterRead", "vec"}


def basic(rec):
    m = re.match(re.escape(T) + r"([a-z ]+?)(, void)?>$", rec)
    return m.group(1) if m else None


def run(ck):
    ck.rule("access", "accessing element i yields exactly the value at position i, with a bounds check for at, and changes nothing")
    ck.rule("size", "size and empty tell the number of the values")
    ck.rule("iterate", "begin and end (forward, reverse, const or not) delimit exactly the values")
    ck.rule("change", "the modifying operations change the values as they say and nothing else")
    ck.rule("take", "construction from values, moving and assigning pass on all values in order, and the ID when moving")
    ck.rule("write", "the write buffers refer to the values themselves, and preparing for writing changes nothing")
    ck.rule("read", "the read buffers hold a vector of the same type, and the collection made of them has exactly its values")
    ck.rule("id", "the ID is the one that was set, and untracked and invalid IDs do not count as an ID")
    ck.rule("type", "the names of the type are its own")
    prog = ck.load("core")
    recs = [r for r in prog.by_rec if r and basic(r)]
    ck.rule("all", "all supported types are covered")
    for b in sorted(BASIC):
        ck.ob("all", b, any(basic(r) == b for r in recs), "is not instantiated")
    for rec in recs:
        one(ck, prog, rec)
    creation(ck, prog, recs)
    for r, n in (("access", 80), ("size", 40), ("iterate", 120), ("change", 80), ("take", 60), ("write", 60), ("read", 60),
                 ("id", 40), ("type", 40)):
        ck.need(r, n)
    ck.assume("the operations of the standard library vector behave as specified")


def one(ck, prog, rec):
    b = basic(rec)
    short = "UserDataCollection<%s>" % b
    m = lambda name, n, **kw: method(prog, rec, name, n, **kw)
    V = field_of(ck, m("vec", 0, const=True))
    ID = field_of(ck, m("getID", 0))
    if V[0] != "f" or V[1] != THIS:
        raise AnalysisError("the values of %s are in %s" % (rec, show(V)))
    inside = lambda t: has_prefix(t, V)

    def paths(fn, throws=False, **kw):
        for o in ck.outs(fn, **(kw or {"once": True})):
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            if o.kind == "ret" or throws:
                yield o, w
            else:
                ck.ob("change", "%s::%s" % (short, fn.name), False, "ends with an exception", w)

    fns = prog.by_rec[rec]
    for fn in fns:
        inst = "%s::%s%s" % (short, fn.name, " const" if fn.const else "")
        # ------------------------------------------------------------ access
        if fn.name in ("at", "operator[]"):
            el = ("elem", V, par(fn, 0))
            inb = ("lt", par(fn, 0), ("size", V))
            for o, w in paths(fn, throws=True):
                known = cond(o, inb)
                if o.kind != "ret":
                    ck.ob("access", inst, fn.name == "at" and known is False, "throws", w)
                    continue
                ck.ob("access", inst, o.value == el, "yields %s" % show(o.value), w)
                ck.ob("access", inst, not effects(o), "changes %s" % effects(o)[:1], w)
                if fn.name == "at":
                    ok = known is True or any(e[0] == "at" and e[1] == V and e[2] == par(fn, 0) for e in o.events)
                    ck.ob("access", inst, ok, "there is no check of the position", w)
        # -------------------------------------------------------------- size
        elif fn.name in ("size", "empty"):
            for o, w in paths(fn):
                v = o.value
                if fn.name == "size":
                    ck.ob("size", inst, v == ("size", V) or v == C(0) and cond(o, ("nz", ("size", V))) is False, "is %s" % show(v), w)
                else:
                    c = cond(o, ("nz", ("size", V)))
                    ok = truth_of(v) == ("not", ("nz", ("size", V))) if c is None else v == C(not c)
                    ck.ob("size", inst, ok, "is %s" % show(v), w)
                ck.ob("size", inst, not effects(o), "changes %s" % effects(o)[:1], w)
        # ----------------------------------------------------------- iterate
        elif fn.name in ITER and not fn.params:
            kind, last = ITER[fn.name]
            for o, w in paths(fn):
                v = iterator(o, o.value, fn)
                want = (kind, V, ("size", V) if last else C(0))
                ck.ob("iterate", inst, v == want, "is %s" % show(v), w)
                ck.ob("iterate", inst, not effects(o), "changes %s" % effects(o)[:1], w)
        elif fn.name == "vec":
            for o, w in paths(fn):
                ck.ob("access", inst, o.value == V and not effects(o), "yields %s" % show(o.value), w)
        # ------------------------------------------------------------ change
        elif fn.name in ("push_back", "create", "resize", "clear"):
            for o, w in paths(fn):
                eff = [e for e in effects(o) if not harmless(e)]
                bad = [e for e in eff if not inside(e.loc)]
                ck.ob("change", inst, not bad, "changes %s" % bad[:2], w)
                eff = [e for e in eff if inside(e.loc)]
                if fn.name in ("push_back", "create"):
                    v = par(fn, 0) if fn.name == "push_back" else None
                    ck.ob("change", inst, appended(o, eff, V, v), "changes the values by %s" % eff[:3], w)
                    if fn.name == "create":
                        ck.ob("change", inst, o.value[0] == "elem" and o.value[1] == V and at_end(o.value[2], V),
                              "yields %s" % show(o.value), w)
                elif fn.name == "resize":
                    ok = len(eff) == 1 and eff[0].kind == "resize" and eff[0].loc == V and eff[0].args[0] == par(fn, 0) and \
                        (len(eff[0].args) == 1 or zero(eff[0].args[1]))
                    ck.ob("change", inst, ok, "changes the values by %s" % eff[:3], w)
                else:
                    ck.ob("change", inst, cleared(o, V) or cond(o, ("nz", ("size", V))) is False and not eff,
                          "does not remove all values: %s" % eff[:3], w)
        # -------------------------------------------------------------- take
        elif fn.kind in ("movector", "copyctor") or fn.kind == "ctor":
            for o, w in paths(fn):
                v, i = o.load(V), o.load(ID)
                if fn.kind == "ctor" and not fn.params:
                    ck.ob("take", inst, empty_vec(v), "has the values %s" % show(v), w)
                elif fn.kind == "ctor":
                    if "vector" in fn.pt[0]:
                        ck.ob("take", inst, v == par(fn, 0), "has the values %s" % show(v), w)
                else:
                    P = par(fn, 0)
                    ck.ob("take", inst, v == rebase_to(V, THIS, P), "has the values %s" % show(v), w)
                    ck.ob("take", inst, i == rebase_to(ID, THIS, P), "has the ID %s" % show(i), w)
        elif fn.name == "operator=":
            for o, w in paths(fn):
                P = par(fn, 0)
                ck.ob("take", inst, value_of(o, V) == rebase_to(V, THIS, P), "has the values %s" % show(value_of(o, V)), w)
                ck.ob("take", inst, o.load(ID) == rebase_to(ID, THIS, P), "has the ID %s" % show(o.load(ID)), w)
        elif fn.name == "from":
            R = par(fn, 0)
            for o, w in paths(fn):
                if o.value is None or o.value[0] != "obj":
                    raise AnalysisError("from of %s yields %s" % (rec, show(o.value)))
                v = o.load(rebase_to(V, THIS, o.value))
                ck.ob("take", inst, all_of(o, v, R), "has the values %s" % show(v), w)
        # ------------------------------------------------------------- write
        elif fn.name == "getBuffers":
            for o, w in paths(fn):
                bad = [e for e in effects(o) if inside(e.loc) or e.loc == ID]
                ck.ob("write", inst, not bad, "changes %s" % bad[:1], w)
                parts = [part(o, prog, o.value, x) for x in ("data", "vecPtr", "references", "vectorMembers")]
                d = o.load(deref(parts[0]))
                ck.ob("write", inst, parts[0][0] == "addr" and not is_local(parts[0][1]) and d == ("addr", V),
                      "the data is %s" % show(d), w)
                ck.ob("write", inst, parts[1] == ("addr", V), "the values are %s" % show(parts[1]), w)
                for x, name in ((parts[2], "references"), (parts[3], "vector members")):
                    ck.ob("write", inst, x == NULL or x[0] == "addr" and x[1][0] == "f" and x[1][1] == THIS and not is_local(x[1]),
                          "the %s are %s" % (name, show(x)), w)
                ck.ob("write", inst, parts[2] != parts[3] or parts[2] == NULL, "references and vector members are the same", w)
        elif fn.name in ("prepareForWrite", "prepareAfterRead", "setReferences", "setSubsetCollection"):
            for o, w in paths(fn):
                bad = [e for e in effects(o) if inside(e.loc) or e.loc == ID]
                ck.ob("write", inst, not bad, "changes %s" % bad[:1], w)
                if fn.name == "setReferences":
                    ck.ob("write", inst, o.value == C(True), "reports %s" % show(o.value), w)
        # ---------------------------------------------------------------- id
        elif fn.name == "setID":
            for o, w in paths(fn):
                other = [e for e in effects(o) if e.loc != ID]
                ck.ob("id", inst, o.load(ID) == par(fn, 0) and not other, "sets the ID to %s" % show(o.load(ID)), w)
        elif fn.name == "getID":
            for o, w in paths(fn):
                ck.ob("id", inst, o.value == ID and not effects(o), "is %s" % show(o.value), w)
        elif fn.name in ("hasID", "isValid"):
            for o, w in paths(fn):
                known = {x: cond(o, mk_eq(ID, C(x))) for x in (-1, -2)}
                for x, y in ((-1, -2), (-2, -1)):
                    if known[x] is None and known[y] is not None:
                        known[x] = None
                v = truth_of(o.value)
                none = any(known[x] is True for x in known)
                left = [x for x in known if known[x] is None]
                if none:
                    ok = v == C(False)
                elif not left:
                    ok = v == C(True)
                elif len(left) == 1:
                    ok = v == ("not", mk_eq(ID, C(left[0])))
                else:
                    ok = v == ("and",) + tuple(("not", mk_eq(ID, C(x))) for x in left)
                ck.ob("id", inst, ok, "is %s" % show(o.value), w)
        elif fn.name == "isSubsetCollection":
            for o, w in paths(fn):
                ck.ob("type", inst, o.value == C(False), "is %s" % show(o.value), w)
        # -------------------------------------------------------------- type
        elif fn.name in ("getTypeName", "getValueTypeName", "getDataTypeName"):
            want = BASIC[b] if fn.name != "getTypeName" else "podio::UserDataCollection<%s>" % BASIC[b]
            for o, w in paths(fn):
                ck.ob("type", inst, text(prog, o.value) == want, "is %s" % (text(prog, o.value) or show(o.value)), w)
    for n in ("typeName", "valueTypeName", "dataTypeName"):
        q = "podio::UserDataCollection<%s>::%s" % (b, n)
        want = BASIC[b] if n != "typeName" else "podio::UserDataCollection<%s>" % BASIC[b]
        ck.ob("type", "%s::%s" % (short, n), text(prog, ("g", q)) == want, "is %s" % text(prog, ("g", q)))
    have = {f.name for f in fns}
    for n in sorted((ORDINARY | set(ITER)) - have):
        raise AnalysisError("%s has no %s" % (rec, n))


def text(prog, t):
    """the text of a constant string"""
    if t is None:
        return None
    if t[0] == "c" and isinstance(t[1], str) and t[1].startswith("str:"):
        return t[1][4:]
    if t[0] == "g":
        return prog.globals.get(t[1].lstrip(":"), {}).get("cs")
    if t[0] == "ctor" and len(t[2]) >= 1:
        return text(prog, t[2][0])
    return None


def truth_of(v):
    return truth(v) if v[0] != "c" else C(bool(v[1]))


def at_end(i, V):
    """is i the position of the value that was appended"""
    b, off = linear(i)
    return b is not None and b[:2] == ("size", V) and off == (0 if len(b) == 2 else -b[2])


def part(o, prog, v, name):
    """a member of a record that may be a list of values"""
    if v[0] == "agg":
        names = [f["n"] for f in prog.recs[v[1]]["fields"]] if v[1] in prog.recs else []
        for i, (k, x) in enumerate(v[2]):
            if k == name or (not isinstance(k, str) and i < len(names) and names[i] == name):
                return x
        raise AnalysisError("no %s in %s" % (name, show(v)))
    return o.load(F(v, name))


def iterator(o, v, fn):
    """the iterator for a returned value; a reverse iterator may be made of the forward one"""
    if v[0] == "ctor" and "reverse_iterator" in v[1] and len(v[2]) == 1 and v[2][0][0] == "it":
        it = v[2][0]
        if it[2] == C(0):
            return ("rit", it[1], ("size", it[1]))
        if it[2] == ("size", it[1]):
            return ("rit", it[1], C(0))
    return v


def zero(t):
    return t == C(0) or (t[0] == "ctor" and not t[2])


def harmless(e):
    return e.kind in ("reserve", "shrink_to_fit", "flush")


def appended(o, eff, V, v):
    """exactly one value was appended: v, or the default value"""
    if not eff:
        return False
    first = eff[0]
    if first.loc != V or first.kind not in ("push_back", "emplace_back", "insert", "emplace", "resize"):
        return False
    if first.kind == "resize":
        a = first.args
        if linear(a[0]) != (("size", V), 1) or len(a) > 1 and a[1] != v:
            return False
        x = a[1] if len(a) > 1 else C(0)
    else:
        a = first.args
        if first.kind in ("insert", "emplace"):
            if a[0] != ("it", V, ("size", V)):
                return False
            a = a[1:]
        x = a[0] if a else C(0)
    for e in eff[1:]:
        if e.kind == "wr" and e.loc[0] == "elem" and e.loc[1] == V and at_end(e.loc[2], V):
            x = o.load(e.loc)
        else:
            return False
    return x == v if v is not None else zero(x)


def swapped(o, v):
    """the content of a local container that may have been swapped"""
    for e in reversed(effects(o, local=True)):
        if e.kind == "swap" and v in (e.loc, e.args[0]) and v[0] == "obj":
            v = e.args[0] if e.loc == v else e.loc
    return v


def value_of(o, V):
    v = o.load(V)
    for e in effects(o):
        if e.loc == V and e.kind in ("swap", "assign"):
            v = e.args[0]
    return v


def empty_vec(v):
    return v[0] == "obj" or v[0] == "ctor" and not v[2]


def all_of(o, v, R):
    """the container holds all elements of the range in order"""
    if v == R:
        return True
    if v[0] in ("call", "out") and contains(v, R) and re.search("ranges::to\\b", str(v)):
        return True
    fill = [e for e in effects(o, local=True) if e.loc == v and (e.kind in FILL or e.kind == "append_range")]
    if not fill and v[0] == "obj":
        x = o.load(v)
        if x[0] == "ctor" and len(x[2]) == 2:
            return x[2] == (("it", R, C(0)), ("it", R, ("size", R)))
        if not any(e[0] == "endloop" for e in o.events):
            return cond(o, ("nz", ("size", R))) is False
    if len(fill) != 1:
        return False
    e = fill[0]
    if e.kind == "append_range":
        return tuple(e.args[:3]) == (R, C(0), ("size", R))
    if e.kind == "insert" or e.kind == "assign":
        return tuple(e.args[-2:]) == (("it", R, C(0)), ("it", R, ("size", R)))
    x = e.args[0]
    return x[0] == "elem" and whole(o, R, x[2]) is not False and (x[1] == R)


def creation(ck, prog, recs):
    """the functions registered for creating read buffers"""
    makers = {}
    for fn in prog.funcs.values():
        if fn.rt != "podio::CollectionReadBuffers" or len(fn.params) != 1 or fn.params[0]["t"] != "bool":
            continue
        for o in ck.outs(fn, once=True):
            if o.kind == "ret" and o.value is not None:
                lam = o.load(F(o.value, "createCollection"))
                g = prog.funcs.get(lam[1]) if lam[0] in ("lam", "fn") else None
                for p in ck.outs(g, once=True) if g else ():
                    r = deref(p.value) if p.kind == "ret" and p.value is not None else None
                    if r and r[0] == "obj" and r[2] in recs:
                        makers.setdefault(r[2], (fn, g))
    # --------------------------------------------------------- registration
    regs = {}
    for fn in prog.funcs.values():
        if fn.name.startswith("registerUserDataCollection") and len(fn.params) == 1:
            b = strip_type(fn.pt[0])
            regs[b] = [e for o in ck.outs(fn, once=True, opaque=registering, okey="p24") for e in o.events if e[0] == "call" and
                       registering_name(e[1])]
    for rec in recs:
        b = basic(rec)
        inst = "UserDataCollection<%s>" % b
        name = "podio::UserDataCollection<%s>" % BASIC[b]
        if rec not in makers:
            ck.ob("read", inst, False, "no function creates read buffers for it")
            continue
        fn, make = makers[rec]
        if regs:
            mine = [e for es in regs.values() for e in es if e[1].endswith("registerCreationFunc") and e[3][2][0] in ("lam", "fn") and
                    e[3][2][1] == fn.id]
            ck.ob("read", inst, bool(mine) and all(text(prog, e[3][0]) == name and e[3][1] == C(1) for e in mine),
                  "is registered as %s" % [show(e[3][0]) for e in mine[:1]], fn.loc)
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            v = o.value
            get = lambda x: o.load(F(v, x))
            d = get("data")
            ok = d[0] == "addr" and d[1][0] == "obj" and vec_elem(d[1][2]) == b and not any(
                e.loc == d[1] for e in effects(o, local=True) if e.kind != "wr" and not harmless(e))
            ck.ob("read", inst, ok, "the data of the buffers is %s" % show(d), w)
            ck.ob("read", inst, get("references") == NULL and get("vectorMembers") == NULL, "there are references", w)
            ck.ob("read", inst, text(prog, get("type")) == name, "the type is %s" % (text(prog, get("type")) or show(get("type"))), w)
            ck.ob("read", inst, get("schemaVersion") in (C(1), ("g", "::podio::UserDataCollection<%s>::schemaVersion" % b)),
                  "the version is %s" % show(get("schemaVersion")), w)
            lam = get("deleteBuffers")
            g = prog.funcs.get(lam[1]) if lam[0] in ("lam", "fn") else None
            ck.ob("read", inst, g is not None, "no function releases the buffers", w)
            for p in ck.outs(g, once=True) if g else ():
                w2 = "%s on path: %s" % (g.loc, p.path()[:300])
                D = F(par(g, 0), "data")
                dels = [e for e in p.events if e[0] == "delete"]
                some = cond(p, ("nz", D))
                ck.ob("read", inst, (some is False and not dels) or len(dels) == 1 and same_loc(dels[0][1], D) and
                      vec_elem(dels[0][2]) == b, "releases %s" % [(show(e[1]), e[2]) for e in dels], w2)
        B = par(make, 0)
        D = F(B, "data")
        V = field_of(ck, method(prog, rec, "vec", 0, const=True))
        for p in ck.outs(make, once=True):
            w = "%s on path: %s" % (make.loc, p.path()[:300])
            if p.kind != "ret":
                ck.ob("read", inst, False, "making the collection fails", w)
                continue
            r = deref(p.value)
            if r[0] != "obj":
                ck.ob("read", inst, False, "the collection is %s" % show(r), w)
                continue
            v = p.load(rebase_to(V, THIS, r))
            v = swapped(p, v)
            ck.ob("read", inst, strip_deref(v) == strip_deref(deref(D)), "the values of the collection are %s" % show(v), w)
            mod = [e for e in effects(p, local=True) if has_prefix(strip_deref(e.loc), deref(D)) and e.kind not in ("delete", "swap")]
            ck.ob("read", inst, not mod, "changes the values by %s" % mod[:2], w)
            dels = [e for e in p.events if e[0] == "delete"]
            kept = p.load(D)
            ok = not dels or (len(dels) == 1 and vec_elem(dels[0][2]) == b and kept == NULL)
            ck.ob("read", inst, ok, "the data is released as %s and stays %s" % ([e[2] for e in dels], show(kept)), w)


def strip_deref(t):
    while t[0] in ("moved", "cast"):
        t = t[1]
    return t


def same_loc(a, b):
    return a == b or a == deref(b)


def vec_elem(t):
    m = re.match(r"(?:const )?std::vector<([^,>]+)", t or "")
    return m.group(1).strip() if m else None


def registering_name(q):
    return q.rsplit("::", 1)[-1] in ("registerCreationFunc", "registerEvolutionFunc")


def registering(fn):
    return registering_name(fn["q"] or "")
