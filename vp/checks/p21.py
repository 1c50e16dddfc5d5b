"""P21: interfaces behave like the handle that they were made from"""
from .. import witness
from ..io import *
from . import p02
from .p12 import has_base


def run(ck):
    ck.rule("forward", "what an interface yields or does is what the wrapped handle yields or does, for every type that can be wrapped")
    ck.rule("type", "the type of the wrapped handle is recognised, and no other is")
    ck.rule("value", "the wrapped handle is yielded if it is of the type that was asked for, anything else is refused")
    ck.rule("wrap", "an interface wraps the handle that it was made from or that the other interface wraps")
    ck.rule("compare", "comparison, ordering and hash are those of the wrapped objects")
    ck.rule("empty", "an interface without an object refers to none")
    ck.rule("types", "interfaces can be made from the declared types, their mutable handles, and nothing else")
    prog = ck.load("core", "cover")
    n = wrapped = 0
    for m in all_models():
        for i in m.interfaces:
            rec = i.rec()
            if concept_field(prog, rec) is None:
                raise AnalysisError("%s has no wrapped value" % rec)
            interface(ck, prog, m, i, rec)
            n += 1
            wrapped += len(i.types)
    recs = {i.rec(): (i.rec(),) for i in all_interfaces()}
    for a, b in handle_recs(prog):
        recs[a] = recs[b] = (a, b)
    ifaces = [i.rec() for i in all_interfaces()]
    sub = Sub(ck, "compare")
    hashes = {}
    for fn in p02.operators(prog, recs, ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>")):
        if any(t in ifaces for t, _ in p02.operands(fn)):
            p02.compare(sub, prog, fn, recs, ifaces)
    for i in sorted(set(ifaces) | {t for i in all_interfaces() for t in i.types}):
        for fn in prog.funcs.values():
            if fn.name == "operator()" and fn.rec == "std::hash<%s>" % i:
                p02.hash_(sub, prog, fn, i, hashes, ifaces)
    for i in ifaces:
        p02.models(sub, prog, i, hashes)
        for fn in prog.by_rec.get(i, []):
            p02.rebind(Sub(ck, "wrap"), prog, fn, i, recs)
    types(ck)
    ck.need("forward", 5 * n + 5 * wrapped)
    ck.need("type", wrapped)
    ck.need("value", wrapped)
    ck.need("wrap", 2 * wrapped)
    ck.need("compare", 10 * n)
    ck.need("empty", n)
    ck.need("types", 30)


def interface(ck, prog, edm, i, rec):
    cf = concept_field(prog, rec)
    self_ = F(THIS, cf)
    names = ["isAvailable", "getObjectID", "id", "unlink"] + [edm.getter(m.name, m.type) for m in i.members]
    models = wrappers(prog, i)
    forward(ck, prog, rec, names, models, self_)
    # ------------------------------------------------------------------ types
    for name, rule in (("isA", "type"), ("as", "value")):
        seen = set()
        for f in methods(prog, rec, name, 0):
            t = strip_type(str(f.targs[0])) if f.targs else None
            if t not in models:
                continue
            seen.add(t)
            yes = no = False
            for o in ck.outs(f, once=True):
                W = "%s on path: %s" % (f.loc, o.path()[:300])
                inst = "%s<%s> of %s" % (name, t, rec)
                if rule == "type":
                    test = o.value
                    ok = o.kind == "ret" and is_type_test(test, t, self_, prog, models[t][0])
                    if not ok and o.kind == "ret" and is_c(test):
                        known = told(o, t, self_, prog, models[t][0])
                        ok = known is not None and known == bool(test[1])
                    ck.ob(rule, inst, ok, "is %s" % (show(o.value) if o.value else o.kind), W)
                    yes = no = True
                    continue
                known = told(o, t, self_, prog, models[t][0])
                if o.kind == "throw":
                    no = True
                    ck.ob(rule, inst, known is False, "is refused although the types are the same", W)
                    continue
                yes = True
                ck.ob(rule, inst, known is True, "is yielded although the types may differ", W)
                v = o.value
                a = ident(o, prog, v, t) if v else None
                k = obj_field(prog, t)
                ok = a is not None and (a == F(deref(self_), models[t][1], k) or dyn(a, self_, models[t], k))
                ck.ob(rule, inst, ok, "yields %s" % (show(v) if v else None), W)
            ck.ob(rule, "%s<%s> of %s" % (name, t, rec), yes and no, "has always the same result", f.loc)
        ck.ob(rule, "%s of %s" % (name, rec), seen == set(models), "is not available for %s" % sorted(set(models) - seen))
    for t, (mod, val) in models.items():
        for f in methods(prog, mod, "typeInfo", 0):
            for o in ck.outs(f, once=True):
                ck.ob("type", "type of a wrapped %s in %s" % (t, rec), o.kind == "ret" and o.value == ("typeid", t) or is_typeid(o.value, t),
                      "is %s" % show(o.value), f.loc)
    # ------------------------------------------------------------------ empty
    fs = methods(prog, rec, "makeEmpty", 0)
    ck.ob("empty", rec, bool(fs), "cannot be made empty")
    for f in fs:
        for o in ck.outs(f, once=True):
            a = ident(o, prog, o.value, rec) if o.value else None
            ck.ob("empty", rec, o.kind == "ret" and a == NULL, "refers to %s" % (show(a) if a else "nothing known"), f.loc)


def wrappers(prog, i):
    """the wrapper of every type of an interface, and the member it is kept in"""
    models = {}
    for t in i.types:
        mod = "%s::Model<%s>" % (i.rec(), t)
        if mod not in prog.recs or len(prog.recs[mod]["fields"]) != 1:
            raise AnalysisError("%s does not wrap %s" % (i.rec(), t))
        models[t] = (mod, prog.recs[mod]["fields"][0]["n"])
    return models


def members(ck, prog, edm, i):
    """member access through an interface"""
    forward(ck, prog, i.rec(), [edm.getter(m.name, m.type) for m in i.members], wrappers(prog, i), F(THIS, concept_field(prog, i.rec())))


def plain(v, ty):
    """truth values are their own truth"""
    while v and v[0] == "nz" and strip_type(ty) == "bool":
        v = v[1]
    return v


def forward(ck, prog, rec, names, models, self_):
    for name in names:
        fs = methods(prog, rec, name, 0)
        inst = "%s of %s" % (name, rec)
        ck.ob("forward", inst, bool(fs), "does not exist")
        for f in fs:
            for o in ck.outs(f, once=True):
                W = "%s on path: %s" % (f.loc, o.path()[:300])
                calls = [e for e in o.events if e[0] == "call" and e[2] == deref(self_)]
                v = plain(o.value, f.rt) if o.value else o.value
                ok = o.kind == "ret" and len(calls) == 1 and not calls[0][3] and (f.rt.strip() == "void" or v == calls[0][4])
                ck.ob("forward", inst, ok, "is %s" % (show(o.value) if o.value else "nothing"), W)
                bad = [e for e in effects(o) if has_base(e.loc, THIS) and e.kind != "call" and not (e.ev is calls[0] if calls else False)
                       and e.ev[0] != "call"]
                ck.ob("forward", inst, not bad, "changes %s" % bad[:2], W)
                if not ok:
                    continue
                virt = calls[0][1].rsplit("::", 1)[-1]
                for t, (mod, val) in models.items():
                    forwarded(ck, prog, name, "%s of %s with a %s" % (name, rec, t), mod, virt, val, t)


def forwarded(ck, prog, name, inst, mod, virt, val, t):
    """the wrapper does what the wrapped handle does"""
    ms = methods(prog, mod, virt, 0)
    hs = [f for f in methods(prog, t, name, 0) if f.const] or methods(prog, t, name, 0)
    ck.ob("forward", inst, bool(ms) and bool(hs), "does not exist")
    for f in ms:
        for h in hs:
            a = summary(ck.outs(f, once=True), F(THIS, val))
            b = summary(ck.outs(h, once=True, this=F(THIS, val)), F(THIS, val))
            ck.ob("forward", inst, a == b, "differs from that of the wrapped object: %s" % describe(a, b), f.loc)


def summary(outs, place):
    """what a function yields and changes, for every condition"""
    res = set()
    for o in outs:
        t = frozenset((norm(a), v) for a, v in o.tests.items())
        ch = tuple(sorted(((norm(e.loc), e.kind) + tuple(norm(x) for x in e.args if isinstance(x, tuple)) for e in effects(o)
                          if e.kind in ("wr", "erase", "clear", "delete")), key=repr))
        v = o.value
        res.add((o.kind, t, repr(norm(v)) if v is not None and o.kind == "ret" else None, ch))
    return res


def norm(t):
    while t and t[0] == "nz":
        t = t[1]
    return t


def describe(a, b):
    x, y = sorted(a - b, key=repr), sorted(b - a, key=repr)
    return "%s instead of %s" % (str(x[:1])[:200], str(y[:1])[:200])


def is_typeid(t, ty):
    return isinstance(t, tuple) and len(t) >= 2 and t[0] == "typeid" and strip_type(str(t[1])) == ty


def is_type_test(t, ty, self_, prog, mod):
    while t and t[0] == "nz":
        t = t[1]
    if not t:
        return False
    if t[0] == "dyncast":
        return strip_type(str(t[1])) == mod and t[2] == self_
    if t[0] == "not" and t[1][0] == "eq" and NULL in t[1][1:]:
        return any(is_type_test(x, ty, self_, prog, mod) for x in t[1][1:] if x != NULL and x[0] == "dyncast")
    sides = None
    if t[0] == "call" and t[1].endswith("operator=="):
        sides = [x for x in (t[2],) + tuple(t[3]) if isinstance(x, tuple) and x and x[0] != "targs"]
    elif t[0] == "eq":
        sides = list(t[1:])
    if not sides or len(sides) != 2:
        return False
    mine = [x for x in sides if is_typeid(x, ty)]
    other = [x for x in sides if x[0] == "call" and x[1].endswith("typeInfo") and x[2] == deref(self_) or x[0] == "typeid" and x[1] == deref(self_)]
    return len(mine) == 1 and len(other) == 1


def told(o, ty, self_, prog, mod):
    """whether the wrapped handle is of this type, as far as the path knows"""
    for a, v in o.tests.items():
        while a[0] == "not":
            a, v = a[1], not v
        if is_type_test(a, ty, self_, prog, mod):
            return v
        if a[0] == "call" and a[1].endswith("operator!=") and is_type_test(("call", "operator==") + a[2:], ty, self_, prog, mod):
            return not v
    return None


def dyn(a, self_, model, k):
    """the identity of the value of the wrapper after a checked conversion"""
    return a[0] == "f" and a[2] == k and a[1][0] == "f" and a[1][2] == model[1] and a[1][1][0] == "deref" and \
        a[1][1][1][0] == "dyncast" and strip_type(str(a[1][1][1][1])) == model[0] and a[1][1][1][2] == self_


def types(ck):
    items = []
    dts = all_datatypes()
    prelude = ""
    for k, d in enumerate(dts):
        prelude += "struct VpFrom%d { operator ::%s() const; };\nstruct VpSub%d : ::%s {};\n" % (k, d.handle, k, d.handle)
    for i in all_interfaces():
        for k, d in enumerate(dts):
            can = d.full in i.types
            for h in ("VpFrom%d" % k, "VpSub%d" % k) if can else ():
                items.append(("%s from %s" % (i.rec(), h), "!::%s::isInitializableFrom<::%s>" % (i.rec(), h),
                              "can be made although it is only convertible to a declared type"))
            for h in (d.handle, d.mut):
                for e in ("std::is_constructible_v<%s, const %s&>", "std::is_convertible_v<%s, %s>"):
                    a, b = (i.rec(), h) if "constructible" in e else (h, i.rec())
                    items.append(("%s from %s" % (i.rec(), h), "%s%s" % ("" if can else "!", e % ("::" + a, "::" + b)),
                                  "cannot be made" if can else "can be made"))
                items.append(("%s from %s" % (i.rec(), h), "%s::%s::isInitializableFrom<::%s>" % ("" if can else "!", i.rec(), h),
                              "is not declared as a type" if can else "is declared as a type"))
        for j in all_interfaces():
            if i.rec() != j.rec():
                items.append(("%s from %s" % (i.rec(), j.rec()), "!std::is_constructible_v<::%s, const ::%s&>" % (i.rec(), j.rec()), "can be made"))
        items.append(("%s from numbers" % i.rec(), "!std::is_constructible_v<::%s, int>" % i.rec(), "can be made"))
        items.append(("%s from pointers" % i.rec(), "!std::is_constructible_v<::%s, std::nullptr_t>" % i.rec(), "can be made"))
    witness.decide(ck, "types", items, [u for u in LOADED], prelude)
