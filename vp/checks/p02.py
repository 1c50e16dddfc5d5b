"""P02: handles are compared, ordered and hashed by the identity of their object"""
from ..io import *

MSP = "podio::utils::MaybeSharedPtr<"
VALUES = (0, 1, 2)    # 0 is the handle without an object


def run(ck):
    ck.rule("equal", "two handles are equal exactly if they refer to the same object")
    ck.rule("unequal", "inequality is the negation of equality")
    ck.rule("order", "the ordering is total over the identities of the objects")
    ck.rule("hash", "the hash depends on nothing but the identity of the object, and is the same for all handles to it")
    ck.rule("swap", "swapping exchanges which objects two handles refer to and nothing else")
    ck.rule("rebind", "copying, assigning, moving and converting makes a handle refer to the object of the source")
    ck.rule("pointer", "the owning or plain pointers of handles are compared, copied and swapped as pointers")
    ck.rule("id", "object IDs are equal if both of their parts are, and their hash depends on both")
    prog = ck.load("core", "cover")
    pairs = handle_recs(prog)
    ifaces = [i.rec() for i in all_interfaces()]
    hashes = {}
    recs = {}
    for a, b in pairs:
        recs[a] = (a, b)
        recs[b] = (a, b)
    for i in ifaces:
        recs[i] = (i,)
    for fn in operators(prog, recs, ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>")):
        compare(ck, prog, fn, recs, ifaces)
    for r in recs:
        have = {f.name for f in operators(prog, [r], ("operator==", "operator!=", "operator<")) if all_of(f, prog, [r])}
        ck.ob("equal", "comparison of " + r, {"operator==", "operator<"} <= have, "has only %s" % sorted(have))
        # hash
        hs = [f for f in prog.funcs.values() if f.name == "operator()" and f.rec == "std::hash<%s>" % r]
        ck.ob("hash", "hash of " + r, bool(hs), "does not exist")
        for fn in hs:
            hash_(ck, prog, fn, r, hashes, ifaces)
    for i in ifaces:
        models(ck, prog, i, hashes)
    for grp in {g for g in recs.values() if len(g) == 2}:
        vs = {hashes.get(r) for r in grp}
        ck.ob("hash", "hashes of " + grp[0], len(vs) == 1, "differ for the mutable and the immutable handle: %s" % [show(v) for v in vs if v])
    for fn in prog.funcs.values():
        if fn.name == "swap" and len(fn.params) == 2 and strip_type(fn.params[0]["t"]) in recs:
            swap(ck, prog, fn, strip_type(fn.params[0]["t"]))
    for r in recs:
        for fn in prog.by_rec.get(r, []):
            rebind(ck, prog, fn, r, recs)
    pointers(ck, prog)
    object_id(ck, prog)
    ck.need("equal", 60)
    ck.need("unequal", 40)
    ck.need("order", 20)
    ck.need("hash", 40)
    ck.need("swap", 20)
    ck.need("rebind", 60)
    ck.need("pointer", 20)


def operands(fn):
    """types and terms of the operands of an operator"""
    if fn.rec and fn.kind != "func":
        return [(fn.rec, THIS), (strip_type(fn.params[0]["t"]), par(fn, 0))] if len(fn.params) == 1 else []
    return [(strip_type(p["t"]), par(fn, i)) for i, p in enumerate(fn.params)]


def all_of(fn, prog, recs):
    return all(t in recs for t, _ in operands(fn))


def operators(prog, recs, names):
    out = []
    for fn in prog.funcs.values():
        if fn.name in names:
            ops = operands(fn)
            if len(ops) == 2 and all(t in recs for t, _ in ops):
                out.append(fn)
    return sorted(out, key=lambda f: (f.loc, f.q, str(f.params)))


def pointer_field(prog, obj):
    """the member of MaybeSharedPtr that is the pointer"""
    for f in prog.recs.get(MSP + obj + ">", {}).get("fields", ()):
        if strip_type(f["t"]) == obj:
            return f["n"]
    raise AnalysisError("no pointer in %s%s>" % (MSP, obj))


def identities(prog, rec, x):
    """terms that are the identity of the handle x"""
    m = F(x, obj_field(prog, rec))
    return [m, F(m, pointer_field(prog, pointee(prog, rec)))]


def norm(t):
    """library functions for comparisons as comparisons"""
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x) for x in t)
    if t and t[0] == "call" and isinstance(t[1], str):
        q = t[1]
        a = t[3] if len(t) > 3 else ()
        if isinstance(a, tuple) and len(a) == 2:
            name = q.split("<")[0].split("::")[1] if q.startswith("std::") and q.endswith("::operator()") else ""
            if name in ("less", "less_equal", "greater", "greater_equal", "equal_to", "not_equal_to"):
                x, y = (a[1], a[0]) if name in ("greater", "less_equal") else (a[0], a[1])
                res = ("eq" if "equal_to" in name else "lt", x, y)
                return ("not", res) if name in ("less_equal", "greater_equal", "not_equal_to") else res
    if t and t[0] == "nz" and isinstance(t[1], tuple) and t[1] and t[1][0] in ("lt", "eq", "le", "not"):
        return t[1]
    return t


def table(outs, envs):
    """truth of the result for every assignment, None where it is open"""
    res = {}
    for key, env in envs.items():
        vals = set()
        for o in outs:
            if not all(holds(norm(a), env) in (None, v) for a, v in o.tests.items()):
                continue
            open_ = [a for a in o.tests if holds(norm(a), env) is None]
            v = holds(norm(truth(o.value)), env) if o.kind == "ret" else None
            vals.add((v, tuple(show(a) for a in open_)))
        rs = {v for v, _ in vals}
        res[key] = rs.pop() if len(rs) == 1 else None
    return res


def compare(ck, prog, fn, recs, ifaces):
    (ta, x), (tb, y) = operands(fn)
    inst = "%s of %s and %s" % (fn.name, ta, tb)
    outs = ck.outs(fn, once=True)
    changed = [e for o in outs for e in effects(o) if not (e.kind.startswith("call:"))]
    if changed:
        ck.ob("equal", inst, False, "changes %s" % changed[:1], fn.loc)
    if ta in ifaces or tb in ifaces:
        left, right = F(x, concept_field(prog, ta)), F(y, concept_field(prog, tb))
        envs = {}
        terms = set()
        for o in outs:
            for t in list(o.tests) + [o.value]:
                terms |= {s for s in subterms(norm(t))}
        if fn.name in ("operator==", "operator!="):
            calls = {t for t in terms if t[0] == "call" and t[1].endswith("::equal") and
                     {strip_deref(t[2])} | {strip_deref(a) for a in t[3]} == {left, right}}
            if not calls:
                ck.ob("equal" if fn.name.endswith("==") else "unequal", inst, False, "does not compare the wrapped objects", fn.loc)
                return
            for v in (0, 1):
                envs[(1, 1 if v else 2)] = {c: v for c in calls}
        else:
            for a in (1, 2, 3):
                for b in (1, 2, 3):
                    env = {}
                    for t in terms:
                        if t[0] == "f" and t[1][0] == "call" and t[1][1].endswith("::objOrderKey"):
                            at = strip_deref(t[1][2])
                            if at in (left, right):
                                env[t] = a if at == left else b
                    envs[(a, b)] = env
    else:
        envs = {}
        ia, ib = identities(prog, ta, x), identities(prog, tb, y)
        for a in VALUES:
            for b in VALUES:
                env = {t: a for t in ia}
                env.update({t: b for t in ib})
                envs[(a, b)] = env
    res = table(outs, envs)
    show_ = lambda: "is %s" % {k: v for k, v in res.items()}
    if fn.name == "operator==":
        ck.ob("equal", inst, all(v == (k[0] == k[1]) for k, v in res.items()), show_(), fn.loc)
    elif fn.name == "operator!=":
        ck.ob("unequal", inst, all(v == (k[0] != k[1]) for k, v in res.items()), show_(), fn.loc)
    elif fn.name in ("operator<", "operator>"):
        ok = all(v is not None for v in res.values())
        ok = ok and all(not res[k] for k in res if k[0] == k[1])
        ok = ok and all(res[(a, b)] != res[(b, a)] for a, b in res if a != b)
        vals = sorted({a for a, _ in res})
        ok = ok and all(res[(a, c)] or not (res[(a, b)] and res[(b, c)]) for a in vals for b in vals for c in vals)
        ck.ob("order", inst, ok, show_(), fn.loc)
        outs2 = {k for k, v in res.items() if v}
        _orders.setdefault(ta, {})[fn.name] = outs2


_orders = {}


def strip_deref(t):
    while t and t[0] in ("deref", "addr"):
        t = t[1]
    return t


def subst(t, ids):
    if t in ids:
        return ("ID",)
    if isinstance(t, tuple):
        return tuple(subst(x, ids) for x in t)
    return t


def hash_(ck, prog, fn, rec, hashes, ifaces):
    inst = "hash of " + rec
    x = par(fn, 0)
    outs = [o for o in ck.outs(fn, once=True)]
    if rec in ifaces:
        cf = F(x, concept_field(prog, rec))
        vs = {o.value for o in outs}
        ok = len(vs) == 1 and all(v[0] == "call" and v[1].endswith("::objHash") and strip_deref(v[2]) == cf for v in vs)
        ck.ob("hash", inst, ok, "is %s" % [show(v) for v in vs], fn.loc)
        return
    ids = identities(prog, rec, x)
    vs = set()
    for o in outs:
        v = subst(o.value, ids) if o.value else None
        for t in o.tests:
            s = subst(t, ids)
            ck.ob("hash", inst, x not in set(subterms(s)), "depends on %s" % show(t), fn.loc)
        vs.add(v)
    ok = len(vs) == 1 and None not in vs
    v = next(iter(vs)) if ok else None
    ok = ok and x not in set(subterms(v)) and ("ID",) in set(subterms(v))
    ck.ob("hash", inst, ok, "is %s" % [show(o.value) for o in outs], fn.loc)
    if ok:
        hashes[rec] = v


def models(ck, prog, iface, hashes):
    """the wrappers of the types of an interface"""
    types = next(i.types for i in all_interfaces() if i.rec() == iface)
    for ty in types:
        rec = "%s::Model<%s>" % (iface, ty)
        if rec not in prog.recs:
            raise AnalysisError("no %s" % rec)
        val = F(THIS, prog.recs[rec]["fields"][0]["n"])
        ids = identities(prog, ty, val)
        fn = method(prog, rec, "equal", 1)
        rhs = par(fn, 0)
        outs = ck.outs(fn, once=True)
        seen = False
        for o in outs:
            same = None
            at = {deref(rhs)}
            for a, v in o.tests.items():
                sub = set(subterms(a))
                if rhs not in sub and deref(rhs) not in sub:
                    continue
                casts = {x for x in sub if x[0] == "dyncast"}
                if casts or "typeInfo" in str(a):
                    good = all(base_type(x[1]) == rec and x[2] == rhs for x in casts)
                    if good:
                        same = v != (a[0] == "not")
                    at |= {deref(x) for x in casts}
            other = [t for v in at for t in identities(prog, ty, F(v, prog.recs[rec]["fields"][0]["n"]))]
            W = "%s on path: %s" % (fn.loc, o.path()[:200])
            if same is None:
                uses = [s for s in subterms(norm(truth(o.value))) if s in other]
                ck.ob("equal", "equal of " + rec, not uses, "compares objects without checking their types", W)
                continue
            for a in VALUES[1:]:
                for b in VALUES[1:]:
                    env = {t: a for t in ids}
                    env.update({t: b for t in other})
                    if not all(holds(norm(t), env) in (None, v) for t, v in o.tests.items()):
                        continue
                    r = holds(norm(truth(o.value)), env)
                    if same:
                        seen = True
                        ck.ob("equal", "equal of " + rec, r == (a == b), "is %s for %s objects" % (r, "equal" if a == b else "different"), W)
                    else:
                        ck.ob("equal", "equal of " + rec, r is False, "is %s for different types" % r, W)
        ck.ob("equal", "equal of " + rec, seen, "never compares the objects", fn.loc)
        t = methods(prog, rec, "typeInfo", 0)
        for f in t:
            for o in ck.outs(f, once=True):
                ck.ob("equal", "type of " + rec, "typeid(%s)" % ty in show(o.value), "is %s" % show(o.value), f.loc)
        for f in methods(prog, rec, "objHash", 0):
            for o in ck.outs(f, once=True):
                v = subst(o.value, ids)
                ck.ob("hash", "hash of " + rec, v == hashes.get(ty), "is %s, that of the wrapped handle is %s" % (show(v), show(hashes.get(ty) or ())), f.loc)
        for f in methods(prog, rec, "objOrderKey", 0):
            for o in ck.outs(f, once=True):
                v = o.value
                if v[0] == "obj":
                    v = o.load(F(v, prog.recs[v[2]]["fields"][0]["n"]))
                elif v[0] in ("ctor", "agg") and len(v[2]) == 1:
                    v = v[2][0]
                    v = v[1] if not isinstance(v[0], str) else v
                ck.ob("order", "order key of " + rec, strip_deref(v) in ids, "is %s" % show(v), f.loc)


def base_type(t):
    return strip_type(t.replace("const ", "").replace("*", "").strip())


def parts(prog, rec, x):
    """all parts of a handle"""
    of = obj_field(prog, rec)
    return [F(x, of, f["n"]) for f in prog.recs[MSP + pointee(prog, rec) + ">"]["fields"]]


def swap(ck, prog, fn, rec):
    inst = "swap of " + rec
    x, y = par(fn, 0), par(fn, 1)
    for o in ck.outs(fn, once=True):
        cf = concept_field(prog, rec)
        if cf is not None:
            ok = o.load(F(x, cf)) == F(y, cf) and o.load(F(y, cf)) == F(x, cf)
            ck.ob("swap", inst, ok, "the first becomes %s and the second %s" % (show(o.load(F(x, cf))), show(o.load(F(y, cf)))), fn.loc)
            continue
        of = obj_field(prog, rec)
        a, b = whole_pointer(o, prog, rec, F(x, of)), whole_pointer(o, prog, rec, F(y, of))
        ck.ob("swap", inst, a == F(y, of) and b == F(x, of), "the first becomes %s and the second %s" % (show(a), show(b)), fn.loc)
        rest = [e for e in effects(o) if not any(e.loc in (F(z, of),) or has_prefix(e.loc, F(z, of)) for z in (x, y)) and e.kind == "wr"]
        ck.ob("swap", inst, not rest, "changes %s" % rest[:2], fn.loc)


def has_prefix(t, p):
    while isinstance(t, tuple) and t:
        if t == p:
            return True
        t = t[1] if t[0] in ("f", "deref", "elem", "get") else None
    return False


def whole_pointer(o, prog, rec, loc):
    """what the pointer of a handle is, as the pointer it was taken from"""
    fs = [f["n"] for f in prog.recs[MSP + pointee(prog, rec) + ">"]["fields"]]
    v = o.load(loc)
    got = [o.load(F(loc, f)) for f in fs]
    src = {g[1] if g[0] == "f" and g[2] == f else None for g, f in zip(got, fs)}
    if len(src) == 1 and None not in src:
        return src.pop()
    return v if all(g == F(v, f) or g == F(loc, f) for g, f in zip(got, fs)) else ("mix",) + tuple(got)


def rebind(ck, prog, fn, rec, recs):
    """constructors, assignments and conversions from another handle"""
    iface = concept_field(prog, rec) is not None
    if fn.kind in ("copyctor", "movector", "copyasg", "moveasg") or fn.kind == "ctor" and len(fn.params) == 1 and \
            strip_type(fn.params[0]["t"]) in recs:
        src = strip_type(fn.params[0]["t"])
        y = par(fn, 0)
        inst = "%s of %s from %s" % (fn.kind, rec, src)
        if src not in recs:
            return
        for o in ck.outs(fn, once=True):
            if o.kind != "ret":
                continue
            W = "%s on path: %s" % (fn.loc, o.path()[:200])
            same = same_address(o, y)
            if same:
                continue
            want = F(y, concept_field(prog, src)) if concept_field(prog, src) is not None else F(y, obj_field(prog, src))
            got = ident(o, prog, THIS, rec)
            if concept_field(prog, src) is None and got is not None and got != want and got[0] == "f" and got[1] == want:
                got = got[1]
            if not iface:
                got = whole_pointer(o, prog, rec, F(THIS, obj_field(prog, rec)))
                if got[0] == "mix" and all(g == F(want, f["n"]) for g, f in zip(got[1:], prog.recs[MSP + pointee(prog, rec) + ">"]["fields"])):
                    got = want
            ck.ob("rebind", inst, got == want, "refers to %s instead of %s" % (show(got) if got else "something unknown", show(want)), W)
            if fn.kind in ("copyasg", "moveasg"):
                ck.ob("rebind", inst, deref(o.value) == deref(THIS) or o.value in (THIS, deref(THIS)), "returns %s" % show(o.value), W)
    elif fn.name.startswith("operator ") and strip_type(fn.rt) in recs and not fn.params:
        to = strip_type(fn.rt)
        for o in ck.outs(fn, once=True):
            if o.kind == "ret":
                got = ident(o, prog, o.value, to)
                want = F(THIS, obj_field(prog, rec))
                ck.ob("rebind", "conversion of %s to %s" % (rec, to), got == want, "refers to %s" % (show(got) if got else "?"), fn.loc)


def same_address(o, y):
    return any(a[0] == "eq" and v and ("addr", y) in a[1:] and {THIS, ("addr", THIS), ("addr", deref(THIS))} & set(a[1:]) for a, v in o.tests.items())


def pointers(ck, prog):
    n = 0
    for rec in sorted(r for r in prog.recs if r.startswith(MSP)):
        obj = rec[len(MSP):-1]
        if obj not in prog.recs or not prog.by_rec.get(rec):
            continue
        fs = [f["n"] for f in prog.recs[rec]["fields"]]
        ptr = pointer_field(prog, obj)
        for fn in prog.funcs.values():
            ops = operands(fn)
            if fn.name in ("operator==", "operator!=", "operator<") and len(ops) == 2 and all(t == rec for t, _ in ops):
                outs = ck.outs(fn, once=True)
                envs = {}
                for a in VALUES:
                    for b in VALUES:
                        env = {}
                        for (t, x), v in zip(ops, (a, b)):
                            env[x] = env[F(x, ptr)] = v
                        envs[(a, b)] = env
                res = table(outs, envs)
                want = {"operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b, "operator<": lambda a, b: a < b}[fn.name]
                n += 1
                ck.ob("pointer", "%s of %s" % (fn.name, rec), all(v == want(*k) for k, v in res.items()), "is %s" % res, fn.loc)
            if fn.name == "swap" and len(fn.params) == 2 and strip_type(fn.params[0]["t"]) == rec:
                x, y = par(fn, 0), par(fn, 1)
                for o in ck.outs(fn, once=True):
                    ok = all(o.load(F(x, f)) == F(y, f) and o.load(F(y, f)) == F(x, f) for f in fs)
                    ck.ob("pointer", "swap of " + rec, ok, "does not exchange all parts: %s" % [show(o.load(F(x, f))) for f in fs], fn.loc)
        for fn in prog.by_rec.get(rec, []):
            if fn.kind in ("copyctor", "movector", "copyasg", "moveasg"):
                y = par(fn, 0)
                for o in ck.outs(fn, once=True):
                    if o.kind != "ret" or same_address(o, y):
                        continue
                    ok = o.load(F(THIS, ptr)) == F(y, ptr)
                    ck.ob("pointer", "%s of %s" % (fn.kind, rec), ok, "points to %s" % show(o.load(F(THIS, ptr))), fn.loc)
            elif fn.name == "operator bool":
                for v in (0, 1):
                    res = table(ck.outs(fn, once=True), {v: {THIS: v, F(THIS, ptr): v}})
                    ck.ob("pointer", "operator bool of " + rec, res[v] == bool(v), "is %s for %s" % (res[v], "an object" if v else "no object"), fn.loc)
            elif fn.name in ("get", "operator->") and not fn.params:
                for o in ck.outs(fn, once=True):
                    ck.ob("pointer", "%s of %s" % (fn.name, rec), o.value == F(THIS, ptr), "is %s" % show(o.value), fn.loc)


def object_id(ck, prog):
    rec = "podio::ObjectID"
    fs = [f["n"] for f in prog.recs[rec]["fields"] if "static" not in f]
    n = 0
    for fn in operators(prog, [rec], ("operator==", "operator!=", "operator<")):
        (_, x), (_, y) = operands(fn)
        envs = {}
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    for d in (0, 1):
                        envs[((a, b), (c, d))] = {F(x, fs[0]): a, F(x, fs[1]): b, F(y, fs[0]): c, F(y, fs[1]): d}
        res = table(ck.outs(fn, once=True), envs)
        if fn.name == "operator<":
            ok = all(v is not None for v in res.values()) and all(res[(k, k)] is False for k, _ in res) and \
                all(not (res[(k, m)] and res[(m, k)]) for k, m in res)
        else:
            ok = all(v == ((k[0] == k[1]) == (fn.name == "operator==")) for k, v in res.items())
        ck.ob("id", fn.name, ok, "does not compare both parts", fn.loc)
    hs = [f for f in prog.funcs.values() if f.name == "operator()" and f.rec == "std::hash<%s>" % rec]
    for fn in hs:
        for o in ck.outs(fn, once=True):
            used = {s for s in subterms(o.value)}
            ck.ob("id", "hash", all(F(par(fn, 0), f) in used for f in fs), "is %s" % show(o.value), fn.loc)
    ck.ob("id", "hash", bool(hs), "does not exist")
