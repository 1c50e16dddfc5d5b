"""P30: a clone is an independent, untracked copy"""
from ..io import *
from .p12 import change_base, extents, field_name, has_base, size_of
from .p29 import same


def run(ck):
    ck.rule("fresh", "a clone is a handle that owns a new object, which is in no collection")
    ck.rule("data", "all members of the clone have the values of the original")
    ck.rule("single", "a one-to-one relation of the clone refers to the same object as that of the original, or to none if "
                      "there is none or if relations are not cloned")
    ck.rule("many", "the relations and vector members of the clone are containers of its own with exactly the elements of the "
                    "original object in order, or empty if relations are not cloned")
    ck.rule("pure", "the original is not changed")
    prog = ck.load("core", "cover")
    n = 0
    for dt in all_datatypes():
        for h in (dt.handle, dt.mut):
            rels = []
            for kind, ms in (("many", dt.many), ("vec", dt.vecs), ("one", dt.ones)):
                for m in ms:
                    f = obj_member(ck, h, dt.edm.getter(m.name))
                    if len(f) != 1:
                        raise AnalysisError("%s of %s is stored in %s" % (m.name, h, sorted(f)))
                    ext = extents(ck, prog, h, m.name) if kind != "one" else None
                    if kind != "one" and ext is None:
                        raise AnalysisError("no extent of %s of %s" % (m.name, h))
                    rels.append((kind, m.name, f.pop(), m.type, ext))
            clone(ck, prog, h, dt.mut, dt.data, rels)
            n += 1
    for pair in handle_recs(prog):
        if not pair[0].startswith("podio::LinkT<"):
            continue
        for h in pair:
            fs = {k: obj_member(ck, h, "get" + k) for k in ("From", "To")}
            rels = []
            for k, o in (("From", "To"), ("To", "From")):
                f = fs[k] if len(fs[k]) == 1 else fs[k] - fs[o]
                if len(f) != 1:
                    raise AnalysisError("get%s of %s reads from %s" % (k, h, sorted(f)))
                rels.append(("one", k, list(f)[0], None, None))
            clone(ck, prog, h, pair[1], None, rels)
            n += 1
    ck.need("fresh", 2 * n)
    ck.need("data", 2 * n)
    ck.need("single", 60)
    ck.need("many", 100)
    ck.need("pure", n)


def clone(ck, prog, h, mut, data, rels):
    fns = [f for f in methods(prog, h, "clone", 1) if f.const]
    ck.ob("fresh", "clone of " + h, bool(fns), "does not exist")
    ob = deref(F(THIS, obj_field(prog, h)))
    obj = pointee(prog, h)
    idf = id_field(prog, obj)
    fields = {f["n"]: strip_type(f["t"]) for f in prog.recs[obj]["fields"]}
    df = [k for k, t in fields.items() if t == data or data is None and t == "podio::LinkData"]
    if len(df) != 1:
        raise AnalysisError("%s has no unique data" % obj)
    D = df[0]
    drec = prog.recs[fields[D]]
    ext = {t[2] for r in rels if r[4] for t in r[4][1:]}
    for fn in fns:
        flag = par(fn, 0)
        for o in ck.outs(fn, once=True):
            W = "%s on path: %s" % (fn.loc, o.path()[-400:])
            if o.kind != "ret":
                ck.ob("fresh", "clone of " + h, False, "throws", W)
                continue
            want = o.tests.get(flag, o.tests.get(("nz", flag)))
            p = smart(o, F(o.value, obj_field(prog, mut)))
            ok = strip_type(fn.rt) == mut and p is not None and p[0] == "addr" and p[1][0] == "obj" and p[1][2] == obj
            ck.ob("fresh", "clone of " + h, ok, "refers to %s" % (show(p) if p else "?"), W)
            if not ok:
                continue
            N = p[1]
            own = any(e[0] == "handle" and e[1] == p and e[2] == "owned" for e in o.events)
            ck.ob("fresh", "clone of " + h, own, "does not own the new object", W)
            idx = o.load(F(N, idf, "index"))
            cid = o.load(F(N, idf))
            if cid[0] == "agg":
                idx = dict(cid[2]).get("index", dict(cid[2]).get(0, idx))
            ck.ob("fresh", "clone of " + h, idx == C(-1), "has the index %s" % show(idx), W)
            bad = [e for e in effects(o) if has_base(e.loc, THIS) or has_base(e.loc, ob)]
            ck.ob("pure", "clone of " + h, not bad, "changes %s" % bad[:2], W)
            for f in drec["fields"]:
                if f["n"] in ext:
                    continue
                v = o.load(F(N, D, f["n"]))
                ck.ob("data", "%s in the clone of %s" % (f["n"], h), v == F(ob, D, f["n"]) or v == o.load(F(ob, D, f["n"])),
                      "is %s" % show(v), W)
            conts = []
            for kind, name, f, ty, e in rels:
                inst = "%s in the clone of %s" % (name, h)
                v = o.load(F(N, f))
                if kind == "one":
                    src = F(ob, f)
                    there = present(o, src)
                    if want is None and there is not False:
                        # the value has to be right for both
                        ck.ob("single", inst, False, "does not depend on whether relations are cloned", W)
                    elif want is False:
                        ck.ob("single", inst, v == NULL, "is %s although relations are not cloned" % show(v), W)
                    elif there is None:
                        ck.ob("single", inst, False, "is %s whether or not the original has one" % show(v), W)
                    elif there is False:
                        ck.ob("single", inst, v == NULL, "is %s, the original has none" % show(v), W)
                    else:
                        ck.ob("single", inst, target(o, prog, v, src), "is %s" % show(v), W)
                    continue
                B, b, x = e
                cont = deref(v)
                mine = v[0] == "addr" and v[1][0] == "obj" and v[1] not in conts
                ck.ob("many", inst, mine, "is %s, which is no container of its own" % show(v), W)
                if not mine:
                    continue
                cont = v[1]
                conts.append(cont)
                first, last = (o.load(change_base(t, ob, N)) for t in (b, x))
                c, why = content(o, prog, cont, B, b, x)
                if want is False:
                    ck.ob("many", inst, c == "none" and same(first, last), "has elements although relations are not cloned", W)
                    continue
                if want is None:
                    ck.ob("many", inst, False, "does not depend on whether relations are cloned", W)
                    continue
                ck.ob("many", inst, c == "all", why, W)
                k = o.state.ver.get(cont)
                ok = first == C(0) and (last in ([("size", cont, k)] if k else [("size", cont)]) or same(last, ("sub", x, b)))
                ck.ob("many", inst, ok, "goes from %s to %s" % (show(first), show(last)), W)


def present(o, src):
    for a in (("nz", src), src):
        if a in o.tests:
            return o.tests[a]
    v = o.tests.get(mk_eq(src, NULL))
    return None if v is None else not v


def target(o, prog, v, src):
    """does the pointer v own a new handle to the object that the handle that
    src points to refers to"""
    if v[0] != "addr" or v[1][0] != "obj":
        return False
    rec = v[1][2]
    w = ident(o, prog, v[1], rec)
    cf = concept_field(prog, rec)
    f = cf if cf is not None else obj_field(prog, rec)
    if w == F(deref(src), f) or w == deref(src):
        return True
    # the pointer inside of the pointer
    return w is not None and w[0] == "f" and w[1] == F(deref(src), f)


def content(o, prog, cont, B, b, x):
    """what the new container contains: none, all elements of the extent or
    something else"""
    init = o.load(cont)
    whole_ = False
    if init[0] == "ctor":
        its = [a for a in init[2] if a[0] == "it"]
        if len(its) == 2 and its == [("it", B, b), ("it", B, x)]:
            whole_ = True
        elif len(init[2]) == 1 and is_c(init[2][0]) and init[2][0][1] == 0:
            pass
        elif init[2]:
            return "other", "contains %s" % show(init)
    elif init not in (cont,):
        if init[0] != "agg" or init[2]:
            return "other", "contains %s" % show(init)
    fills = [e for e in effects(o, local=True) if e.loc == cont and e.kind in FILL + ("insert", "append_range", "assign", "resize", "erase", "pop_back", "clear", "swap")]
    n = 0
    for e in fills:
        its = [a for a in e.args if a[0] == "it" and a[1] == B]
        if e.kind in ("insert", "append_range", "assign"):
            if its == [("it", B, b), ("it", B, x)] or e.kind == "append_range" and e.args == (B, b, x):
                n += 1
                continue
            return "other", "gets %s" % [show(a) for a in e.args]
        if e.kind not in FILL or len(e.args) != 1:
            return "other", "is changed by %s" % e
        v = e.args[0]
        if v[0] == "obj":
            w = ident(o, prog, v, v[2]) if concept_field(prog, v[2]) is not None or v[2] in prog.recs else None
            if w and w[0] == "f":
                v = w[1]
        i = v[2] if v[0] == "elem" and v[1] == B else v[1][2] if v[0] == "deref" and v[1][0] == "it" and v[1][1] == B else None
        if i is None:
            return "other", "gets %s" % show(v)
        ix = inds(i)
        r = loop_range(o, ix[0]) if len(ix) == 1 else None
        if r is None:
            return "other", "gets the element %s" % show(i)
        lo = change_base(i, ix[0], r[0])
        hi = change_base(i, ix[0], r[1])
        step = ix[0][3] if len(ix[0]) > 3 else 1
        end = any(k[0] == "endloop" and k[1] == ix[0][1] for k in o.events)
        if not (same(lo, b) and same(hi, x) and step == 1 and end):
            return "other", "gets the elements %s to %s" % (show(lo), show(hi))
        n += 1
    n += whole_
    return ("none", "is empty") if n == 0 else ("all", "") if n == 1 else ("other", "gets the elements %d times" % n)
