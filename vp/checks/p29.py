"""P29: iterating visits each element exactly once in order"""
from ..io import *

RR = "podio::RelationRange<"


def run(ck):
    ck.rule("bounds", "begin and end of a collection are the positions 0 and size of its elements, and the reverse iterators "
                      "are made of them")
    ck.rule("deref", "dereferencing yields a handle of the element at the position, and the index operator of the one n further")
    ck.rule("step", "the increments, decrements and offsets move the position by exactly that much in the same collection, and "
                    "yield the iterator itself or the one from before as the iterator concept says")
    ck.rule("compare", "comparisons and differences are those of the positions")
    ck.rule("copy", "copies of an iterator have its position and collection")
    ck.rule("range", "a range of related objects delimits exactly what it was made of, and its accessors agree with it")
    prog = ck.load("core", "cover")
    seen = {}
    for c in all_colls(ck):
        collection(ck, prog, c, seen)
    for rec, (c, I, K, h) in sorted(seen.items()):
        iterator(ck, prog, rec, c, I, K, h)
    for rec in sorted(r for r in prog.by_rec if r and r.startswith(RR)):
        range_(ck, prog, rec)
    # operator+ with the offset first
    for fn in prog.funcs.values():
        if fn.name == "operator+" and len(fn.params) == 2 and fn.kind != "method":
            rec = strip_type(fn.pt[1])
            if rec in seen:
                c, I, K, h = seen[rec]
                moved(ck, prog, fn, "n + %s" % rec, par(fn, 1), par(fn, 0), 1, I, K)
    ck.need("bounds", 120)
    ck.need("deref", 60)
    ck.need("step", 150)
    ck.need("compare", 40)
    ck.need("copy", 40)
    ck.need("range", 30)
    ck.assume("handles are copied with their object (P02), std::reverse_iterator behaves as specified")


ENDS = {"begin": 0, "cbegin": 0, "end": 1, "cend": 1}
RENDS = {"rbegin": 1, "crbegin": 1, "rend": 0, "crend": 0}


def collection(ck, prog, c, seen):
    size = ("size", c.entries)
    for name in list(ENDS) + list(RENDS):
        ms = c.ms(name, 0)
        ck.ob("bounds", "%s of %s" % (name, c.rec), bool(ms), "does not exist")
        for fn in ms:
            inst = "%s%s of %s" % (name, " const" if fn.const else "", c.rec)
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:300])
                if o.kind != "ret":
                    ck.ob("bounds", inst, False, "ends with an exception", w)
                    continue
                v, last = o.value, ENDS.get(name)
                if name in RENDS:
                    last = RENDS[name]
                    if v[0] == "obj":
                        v = o.load(v)
                    ok = v[0] in ("ctor", "call") and "reverse_iterator" in v[1] and len(made(v)) == 1
                    ck.ob("bounds", inst, ok, "yields %s" % show(v), w)
                    if not ok:
                        continue
                    v = made(v)[0]
                if v[0] != "obj":
                    raise AnalysisError("%s yields %s" % (inst, show(v)))
                rec = v[2]
                if rec not in seen:
                    seen[rec] = (c,) + roles(ck, prog, c, rec)
                _, I, K, h = seen[rec]
                want = size if last else C(0)
                ck.ob("bounds", inst, o.load(F(v, I)) == want, "the position is %s" % show(o.load(F(v, I))), w)
                ck.ob("bounds", inst, o.load(F(v, K)) == ("addr", c.entries), "the collection is %s" % show(o.load(F(v, K))), w)
                ck.ob("bounds", inst, not effects(o), "changes %s" % effects(o)[:1], w)
                # the elements of a const collection cannot be changed by its iterators
                muts = {b for a, b in handle_recs(prog)}
                if fn.const or name.startswith("c"):
                    ck.ob("bounds", inst, strip_type(h) not in muts, "yields handles that can change the elements", w)


def made(v):
    """what a reverse iterator is made of"""
    return v[2] if v[0] == "ctor" else v[3]


def roles(ck, prog, c, rec):
    """where an iterator keeps its position and its collection"""
    fields = prog.recs[rec]["fields"]
    idx = [f["n"] for f in fields if strip_type(f["t"]) in ("unsigned long", "long", "int", "unsigned int")]
    col = [f["n"] for f in fields if f["t"].endswith("*")]
    if len(idx) != 1 or len(col) != 1:
        raise AnalysisError("position and collection of %s are unknown: %s %s" % (rec, idx, col))
    m = [f for f in prog.by_rec[rec] if f.name == "operator*" and not f.params]
    if not m:
        raise AnalysisError("%s cannot be dereferenced" % rec)
    return idx[0], col[0], m[0].rt


def poly(t, sign=1, out=None):
    """sum of terms with their factors"""
    out = {} if out is None else out
    if is_c(t) and isinstance(t[1], int):
        out[None] = out.get(None, 0) + sign * t[1]
    elif t[0] == "add" and len(t) == 3:
        poly(t[1], sign, out)
        poly(t[2], sign, out)
    elif t[0] == "sub" and len(t) == 3:
        poly(t[1], sign, out)
        poly(t[2], -sign, out)
    elif t[0] in ("neg",) and len(t) == 2:
        poly(t[1], -sign, out)
    elif t[0] == "bin" and t[1] == "-" and len(t) == 4:
        poly(t[2], sign, out)
        poly(t[3], -sign, out)
    elif t[0] == "un" and t[1] == "-":
        poly(t[2], -sign, out)
    elif t[0] == "cast":
        poly(t[-1], sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v or k is None and v}


def same(a, b):
    x = poly(("sub", a, b))
    return not any(x.values())


def outs(ck, rule, fn, inst):
    for o in ck.outs(fn, once=True):
        w = "%s on path: %s" % (fn.loc, o.path()[:300])
        if o.kind != "ret":
            ck.ob(rule, inst, False, "ends with an exception", w)
        else:
            yield o, w


def moved(ck, prog, fn, inst, src, n, sign, I, K):
    """the result is an iterator n further"""
    for o, w in outs(ck, "step", fn, inst):
        want = ("add" if sign > 0 else "sub", F(src, I), n)
        v = o.value
        ck.ob("step", inst, same(o.load(F(v, I)), want), "the position is %s" % show(o.load(F(v, I))), w)
        ck.ob("step", inst, o.load(F(v, K)) == F(src, K), "the collection is %s" % show(o.load(F(v, K))), w)
        ck.ob("step", inst, not effects(o), "changes %s" % effects(o)[:1], w)


def iterator(ck, prog, rec, c, I, K, h):
    hf = obj_field(prog, strip_type(h))
    i, k = F(THIS, I), F(THIS, K)
    el = lambda n: ("elem", deref(k), n)

    def kept(rule, inst, o, w, also=()):
        bad = [e for e in effects(o) if e.loc in (i, k) and e.loc not in also]
        ck.ob(rule, inst, not bad, "changes %s" % bad[:1], w)

    def element(inst, o, v, at, w):
        v = v[1] if v[0] == "deref" and v[1][0] == "obj" else v
        p = smart(o, F(v, hf))
        ok = p[0] == "elem" and p[1] == deref(k) and same(p[2], at)
        ck.ob("deref", inst, ok, "yields %s" % show(p), w)

    names = set()
    for fn in prog.by_rec[rec]:
        inst = "%s(%s) of %s" % (fn.name, ", ".join(fn.pt or []), rec)
        names.add((fn.name, len(fn.params)))
        n = par(fn, 0) if fn.params else None
        self_ = fn.params and strip_type(fn.pt[0]) == rec
        if fn.name == "operator*" and not fn.params:
            for o, w in outs(ck, "deref", fn, inst):
                element(inst, o, o.value, i, w)
                ck.ob("deref", inst, not effects(o), "changes %s" % effects(o)[:1], w)
        elif fn.name == "operator->":
            for o, w in outs(ck, "deref", fn, inst):
                v = o.value
                if v[0] != "addr":
                    raise AnalysisError("%s yields %s" % (inst, show(v)))
                element(inst, o, v[1], i, w)
                kept("deref", inst, o, w)
        elif fn.name == "operator[]":
            for o, w in outs(ck, "deref", fn, inst):
                element(inst, o, o.value, ("add", i, n), w)
                ck.ob("deref", inst, not effects(o), "changes %s" % effects(o)[:1], w)
        elif fn.name in ("operator++", "operator--"):
            d = C(1 if fn.name == "operator++" else -1)
            for o, w in outs(ck, "step", fn, inst):
                ck.ob("step", inst, same(o.load(i), ("add", i, d)), "moves to %s" % show(o.load(i)), w)
                kept("step", inst, o, w, (i,))
                v = o.value
                if fn.params:
                    ck.ob("step", inst, same(o.load(F(v, I)), i) and v != THIS, "yields the position %s" % show(o.load(F(v, I))), w)
                    ck.ob("step", inst, o.load(F(v, K)) == k, "yields the collection %s" % show(o.load(F(v, K))), w)
                else:
                    ck.ob("step", inst, v == THIS, "yields %s" % show(v), w)
        elif fn.name in ("operator+=", "operator-="):
            for o, w in outs(ck, "step", fn, inst):
                want = ("add" if fn.name == "operator+=" else "sub", i, n)
                ck.ob("step", inst, same(o.load(i), want), "moves to %s" % show(o.load(i)), w)
                kept("step", inst, o, w, (i,))
                ck.ob("step", inst, o.value == THIS, "yields %s" % show(o.value), w)
        elif fn.name in ("operator+", "operator-") and not self_ and len(fn.params) == 1:
            moved(ck, prog, fn, inst, THIS, n, 1 if fn.name == "operator+" else -1, I, K)
        elif fn.name == "operator-" and self_ and len(fn.params) == 1:
            for o, w in outs(ck, "compare", fn, inst):
                ck.ob("compare", inst, same(o.value, ("sub", i, F(n, I))), "is %s" % show(o.value), w)
        elif fn.name in ("operator==", "operator!=") and self_:
            for o, w in outs(ck, "compare", fn, inst):
                eq = mk_eq(i, F(n, I))
                comp = mk_eq(k, F(n, K))
                kn = cond(o, eq)
                v = truth(o.value)
                v = neg(v) if fn.name == "operator!=" else v
                # looking at the collections as well is fine: they are the same in valid comparisons
                ok = v == eq or v == ("and", eq, comp) or v == ("and", comp, eq) or (is_c(v) and kn is not None and bool(v[1]) == kn) or \
                    (cond(o, comp) is False and is_c(v) and not v[1]) or (v == comp and kn is True)
                ck.ob("compare", inst, ok, "is %s" % show(o.value), w)
        elif fn.name == "operator<=>" and self_:
            for o, w in outs(ck, "compare", fn, inst):
                v = o.value
                ck.ob("compare", inst, ordering(o, v, i, F(n, I)), "is %s" % show(v), w)
        elif fn.name in ("operator<", "operator>", "operator<=", "operator>=") and self_:
            for o, w in outs(ck, "compare", fn, inst):
                a, b = i, F(n, I)
                want = {"operator<": ("lt", a, b), "operator>": ("lt", b, a), "operator<=": ("not", ("lt", b, a)),
                        "operator>=": ("not", ("lt", a, b))}[fn.name]
                ck.ob("compare", inst, truth(o.value) == want, "is %s" % show(o.value), w)
        elif fn.kind in ("copyctor", "movector", "copyasg", "moveasg"):
            for o, w in outs(ck, "copy", fn, inst):
                ck.ob("copy", inst, o.load(i) == F(n, I), "the position is %s" % show(o.load(i)), w)
                ck.ob("copy", inst, o.load(k) == F(n, K), "the collection is %s" % show(o.load(k)), w)
    for need in (("operator*", 0), ("operator->", 0), ("operator++", 0), ("operator++", 1), ("operator--", 0), ("operator--", 1),
                 ("operator+=", 1), ("operator-=", 1), ("operator-", 1), ("operator+", 1), ("operator[]", 1)):
        if need not in names:
            raise AnalysisError("%s has no %s" % (rec, need[0]))


def ordering(o, v, a, b):
    """the three-way comparison of a and b"""
    if v[0] == "bin" and v[1] == "<=>":
        return v[2] == a and v[3] == b
    s = str(v)
    lt, gt, eq = cond(o, ("lt", a, b)), cond(o, ("lt", b, a)), cond(o, mk_eq(a, b))
    for word, known in (("less", lt), ("greater", gt), ("equal", eq)):
        if v[0] == "g" and v[1].rsplit("::", 1)[-1] == word:
            rest = {"less": (gt, eq), "greater": (lt, eq), "equal": (lt, gt)}[word]
            return known is True or all(x is False for x in rest)
    return False


def range_(ck, prog, rec):
    fns = prog.by_rec[rec]
    m = lambda n, k=0: [f for f in fns if f.name == n and len(f.params) == k]
    if not m("begin") or not m("end"):
        return
    B, E = field_of(ck, m("begin")[0]), field_of(ck, m("end")[0])
    if B[0] != "f" or E[0] != "f" or B == E:
        ck.ob("range", rec, False, "delimits %s to %s" % (show(B), show(E)))
        return
    ctors = [f for f in fns if f.kind == "ctor" and len(f.params) == 2]
    S = [f for f in m("size")]
    size = field_of(ck, S[0]) if S else ("sub", E, B)
    for fn in ctors:
        b, e = par(fn, 0), par(fn, 1)
        for o, w in outs(ck, "range", fn, "constructor of " + rec):
            ck.ob("range", "constructor of " + rec, o.load(B) == b and o.load(E) == e, "delimits %s to %s" %
                  (show(o.load(B)), show(o.load(E))), w)
            v = o.load(size) if size[0] == "f" else ("sub", e, b)
            ck.ob("range", "constructor of " + rec, same(v, ("sub", e, b)), "has the size %s" % show(v), w)
    sizes = None
    for fn in ctors:
        for o in ck.outs(fn, once=True):
            b, e = par(fn, 0), par(fn, 1)
            f = {F(THIS, x["n"]) for x in prog.recs[rec]["fields"] if same(o.load(F(THIS, x["n"])), ("sub", e, b))}
            sizes = f if sizes is None else sizes & f
    sizes = ({size} if size[0] == "f" or same(size, ("sub", E, B)) else set()) | (sizes or set())
    length = lambda t: any(same(t, s) for s in sizes) or same(t, ("sub", E, B))
    for fn in fns:
        inst = "%s of %s" % (fn.name, rec)
        if fn.kind in ("ctor", "copyctor", "movector", "dtor", "copyasg", "moveasg") or fn.const is False and fn.name not in ("at",):
            continue
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            v = o.value
            if o.kind != "ret":
                inb = any(o.tests[a] is True for a in o.tests if a[0] == "lt" and a[1] == par(fn, 0) and length(a[2])) \
                    if fn.params else None
                ck.ob("range", inst, fn.name == "at" and not inb, "throws", w)
                continue
            bad = [e for e in effects(o) if has_prefix(e.loc, THIS)]
            ck.ob("range", inst, not bad, "changes %s" % bad[:1], w)
            if fn.name in ("begin", "cbegin"):
                ck.ob("range", inst, v == B, "is %s" % show(v), w)
            elif fn.name in ("end", "cend"):
                ck.ob("range", inst, v == E, "is %s" % show(v), w)
            elif fn.name == "size":
                ck.ob("range", inst, length(v), "is %s" % show(v), w)
            elif fn.name in ("empty", "operator bool"):
                t = truth(v)
                t = t if fn.name == "empty" else neg(t)
                none = [mk_eq(B, E)] + [("not", ("nz", s)) for s in sizes | {("sub", E, B)}]
                kn = [x for x in (cond(o, a) for a in none) if x is not None]
                ck.ob("range", inst, t in none or is_c(t) and kn and bool(t[1]) == kn[0], "is %s" % show(v), w)
            elif fn.name in ("operator[]", "at"):
                i = par(fn, 0)
                ok = position(v, B, i)
                ck.ob("range", inst, ok, "yields %s" % show(v), w)
                if fn.name == "at":
                    known = [a for a in o.tests if a[0] == "lt" and a[1] == i and length(a[2])]
                    ck.ob("range", inst, any(o.tests[a] is True for a in known), "there is no check of the position", w)
            elif fn.name == "front":
                ck.ob("range", inst, position(v, B, C(0)), "yields %s" % show(v), w)
            elif fn.name == "back":
                ck.ob("range", inst, position(v, E, C(-1)) or any(position(v, B, ("sub", s, C(1))) for s in sizes), "yields %s" % show(v), w)


def position(v, base, n):
    if v[0] == "deref":
        return same(v[1], ("add", base, n))
    if v[0] == "elem" and len(v) == 3:
        return (v[1] == base or v[1] == deref(base)) and same(v[2], n)
    return False
