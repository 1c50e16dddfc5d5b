"""P20: the link navigator returns exactly the linked objects"""
from ..io import *
from .p19 import link_args, link_fields


def run(ck):
    ck.rule("built", "building a navigator visits every link of the collection once and records its to object and its "
                     "weight for its from object and its from object and weight for its to object")
    ck.rule("keeps", "the tables keep several links of one object")
    ck.rule("lookup", "a lookup returns every record for the given object once and nothing else")
    ck.rule("direction", "a lookup looks into the table for the direction that its name, its tag or its argument asks for")
    prog = ck.load("core", "cover")
    navs = link_recs(prog, "LinkNavigator")
    for rec in navs:
        lc = prog.recs[rec]["targs"] if "targs" in prog.recs[rec] else None
        coll = rec[len("podio::LinkNavigator<"):-1]
        c = Coll(ck, coll)
        frm, to = link_args(prog, coll)
        lf = link_fields(ck, c.handle)
        tables = [f["n"] for f in prog.recs[rec]["fields"] if "map<" in f["t"]]
        # ------------------------------------------------------------- built
        role = {}
        ctors = [f for f in prog.by_rec[rec] if f.kind == "ctor" and len(f.params) == 1 and strip_type(f.pt[0]) == coll]
        if not ctors:
            raise AnalysisError("no constructor of %s from a collection" % rec)
        for fn in ctors:
            src = rebase(c.entries, par(fn, 0))
            ran_any = False
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:500])
                if o.kind != "ret":
                    ck.ob("built", rec, False, "ends with an exception", w)
                    continue
                got = {}
                loops = any(e[0] == "endloop" for e in o.events)
                for e in effects(o):
                    if e.loc[0] != "f" or e.loc[1] != THIS or e.loc[2] not in tables or e.kind in ("wr",):
                        continue
                    kv = key_value(o, prog, e)
                    if kv is None:
                        ck.ob("built", rec, False, "changes the table %s by %s" % (e.loc[2], e.kind), w)
                        continue
                    key, obj, weight = kv
                    keyid, kside = end_of(o, prog, key, frm, to, lf)
                    objid, oside = end_of(o, prog, obj, frm, to, lf)
                    if keyid is None and objid is None:
                        # both ends of the link are empty, nothing can be told
                        ran_any = True
                        got.setdefault(e.loc[2], []).append(e)
                        continue
                    got.setdefault(e.loc[2], []).append(e)
                    ran_any = True
                    el = keyid or objid
                    sides = (kside or other(oside), oside or other(kside))
                    ck.ob("built", rec, sides[0] != sides[1], "records the %s object for the %s object of a link" % (
                        sides[1], sides[0]), w)
                    if keyid and objid:
                        ck.ob("built", rec, keyid == objid, "mixes objects of different links", w)
                    ck.ob("built", rec, iter_whole(o, src, el), "does not visit all links", w)
                    ck.ob("built", rec, weight == F(deref(el), *lf["weight"]), "the weight is %s" % show(weight), w)
                    role.setdefault(e.loc[2], set()).add(sides[0])
                if loops:
                    for t in tables:
                        ck.ob("built", rec, len(got.get(t, ())) == 1, "%d records per link in %s" % (len(got.get(t, ())), t), w)
            ck.ob("built", rec, ran_any, "no links are recorded", fn.loc)
        for t in tables:
            ft = [f["t"] for f in prog.recs[rec]["fields"] if f["n"] == t][0]
            ck.ob("keeps", rec, "multimap<" in ft, "%s is a %s" % (t, ft.split("<")[0]), ctors[0].loc)
            ck.ob("built", rec, len(role.get(t, ())) == 1, "%s is keyed by the %s ends" % (t, sorted(role.get(t, ()))), ctors[0].loc)
        sides = sorted(x for r in role.values() for x in r)
        ck.ob("built", rec, sides == ["from", "to"], "tables are keyed by the ends %s" % sides, ctors[0].loc)
        table = {r: t for t, rs in role.items() for r in rs}
        # ------------------------------------------------------------ lookup
        for fn in [f for f in prog.by_rec[rec] if f.name.startswith("getLinked")]:
            inst = "%s(%s) of %s" % (fn.name, ", ".join(strip_type(t) for t in fn.pt), rec)
            want = direction(prog, fn, frm, to)
            if want is None:
                ck.ob("direction", inst, False, "cannot be told what it returns", fn.loc)
                continue
            n = 0
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:500])
                if o.kind != "ret":
                    ck.ob("lookup", inst, False, "ends with an exception", w)
                    continue
                res = o.value
                res = res[1] if res[0] == "deref" else res
                cnt, src = 0, set()
                for e in effects(o, local=True):
                    if e.loc != res:
                        continue
                    if e.kind in FILL:
                        el = record_of(e.args)
                        if el is None:
                            ck.ob("lookup", inst, False, "returns %s" % [show(a) for a in e.args], w)
                            continue
                        cnt += 1
                        src.add(el)
                    elif e.kind not in ("wr",):
                        ck.ob("lookup", inst, False, "changes the result by %s" % e.kind, w)
                for el in src:
                    n += 1
                    rng = el[1]
                    ck.ob("lookup", inst, whole(o, rng, el[2]), "does not return all records", w)
                    key = rng[2]
                    ck.ob("direction", inst, rng[1] == F(THIS, table.get(want[0])) if want[0] in table else False,
                          "looks into %s for objects linked %s it" % (show(rng[1]), want[0]), w)
                    same = ident(o, prog, key, key_type(frm, to, want[0])) == ident(o, prog, par(fn, 0), strip_type(fn.pt[0]))
                    ck.ob("lookup", inst, key == par(fn, 0) or same, "looks for %s" % show(key), w)
                ck.ob("lookup", inst, cnt == len(src) and cnt <= 1, "returns %d objects for one record" % cnt, w)
                if any(e[0] == "endloop" for e in o.events):
                    ck.ob("lookup", inst, cnt == 1, "a record is left out", w)
            ck.ob("lookup", inst, n > 0, "returns no records", fn.loc)
    ck.need("built", 20)
    ck.need("lookup", 40)
    ck.need("direction", 16)
    ck.assume("handles compare by the identity of their object (P02), the standard multimap keeps the records that were "
              "added for equal keys")


def rebase(t, to):
    if t == THIS:
        return to
    return tuple(rebase(x, to) if isinstance(x, tuple) else x for x in t)


def other(s):
    return {"from": "to", "to": "from"}.get(s)


def key_type(frm, to, side):
    return frm if side == "from" else to


def key_value(o, prog, e):
    """(key, object, weight) that an effect adds to a table"""
    if e.kind not in ("emplace", "insert", "emplace_hint"):
        return None
    args = list(e.args)
    if e.kind == "emplace_hint":
        args = args[1:]
    if len(args) == 1:
        p = record_parts(o, prog, args[0])
        if p is None:
            return None
        args = list(p)
    if len(args) != 2:
        return None
    key = args[0]
    if key[0] == "ctor" and len(key[2]) == 1:
        key = key[2][0]
    v = record_parts(o, prog, args[1])
    return None if v is None else (key, v[0], o.load(v[1]) if v[1][0] == "var" else v[1])


def end_of(o, prog, v, frm, to, lf):
    """(link element, side) that a handle is an end of; (None, None) if it
    is an empty handle"""
    rec = v[2] if v[0] == "obj" else None
    for side, t in (("from", frm), ("to", to)):
        if rec is not None and rec != t:
            continue
        try:
            x = ident(o, prog, v, t)
        except (AnalysisError, KeyError):
            continue
        if x is None:
            continue
        for y in subterms(x):
            if y[0] == "f" and y[1][0] == "deref" and y[1][1][0] == "elem":
                for s in ("from", "to"):
                    if y[2] == lf[s]:
                        return y[1][1], s
        if x == NULL:
            return None, None
    return None, None


def record_of(args):
    """the element of a range of records whose value is added"""
    v = args
    if len(v) == 1:
        v = v[0]
        if v[0] == "get" and v[2] == 1 and v[1][0] == "elem" and v[1][1][0] == "rng":
            return v[1]
        if v[0] == "ctor" and len(v[2]) == 2:
            v = v[2]
        elif v[0] == "agg" and len(v[2]) == 2:
            v = tuple(x[1] for x in v[2])
        else:
            return None
    if len(v) == 2:
        xs = set()
        for k, (x, names) in enumerate(zip(v, (("o",), ("weight",)))):
            if x[0] == "f" and x[1][0] == "get" and x[1][2] == 1 and x[2] in names:
                xs.add(x[1][1])
            else:
                return None
        if len(xs) == 1:
            el = xs.pop()
            if el[0] == "elem" and el[1][0] == "rng":
                return el
    return None


def direction(prog, fn, frm, to):
    """(side whose table is asked, side that is returned)"""
    muts = {}
    for a, b in handle_recs(prog):
        muts[b] = a
    t = strip_type(fn.pt[0])
    t = muts.get(t, t)
    if fn.name == "getLinkedTo":
        return "from", "to"
    if fn.name == "getLinkedFrom":
        return "to", "from"
    if len(fn.pt) == 2:
        if "ReturnTo" in fn.pt[1]:
            return "from", "to"
        if "ReturnFrom" in fn.pt[1]:
            return "to", "from"
        return None
    if frm == to:
        return None
    if t == frm:
        return "from", "to"
    if t == to:
        return "to", "from"
    return None
