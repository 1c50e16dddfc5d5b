"""P19: links keep from, to and weight apart"""
from ..io import *
from . import p10, p13


def run(ck):
    ck.rule("get", "every accessor of an end returns the object that is stored as this end, or an empty handle exactly if "
                   "there is none, and every accessor of the weight returns the weight")
    ck.rule("set", "every setter stores the given object as the end that it names, or that has the type of the object, and "
                   "changes nothing else")
    ck.rule("new", "a new link has no ends and weight one, or the weight that was asked for")
    ck.rule("clone", "a clone has the weight of the original and, if relations are requested, the same ends on the same sides")
    ck.rule("same", "copies and conversions of a link handle refer to the same link")
    ck.rule("write", "the from and to objects and the weight of every link are written to their own places")
    ck.rule("read", "the from and to objects of every link are read from the places they are written to")
    ck.rule("load", "a link that is read has the weight that is stored at its position")
    prog = ck.load("core", "cover")
    links = link_recs(prog, "LinkT")
    for rec in links:
        mut = rec.endswith(", true>")
        imm, mutrec = rec.rsplit(",", 1)[0] + ", false>", rec.rsplit(",", 1)[0] + ", true>"
        frm, to = link_args(prog, rec)
        lf = link_fields(ck, imm)
        hf = obj_field(prog, rec)
        ob = deref(F(THIS, hf))
        place = {"from": F(ob, lf["from"]), "to": F(ob, lf["to"]), "weight": F(ob, *lf["weight"])}
        typ = {"from": frm, "to": to}
        fns = prog.by_rec.get(rec, [])
        # -------------------------------------------------------------- get
        for fn in fns:
            side = getter_side(fn, frm, to)
            if side is None:
                continue
            inst = "%s of %s" % (signature(fn), rec)
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:400])
                if o.kind != "ret":
                    ck.ob("get", inst, False, "ends with an exception", w)
                    continue
                ck.ob("get", inst, not effects(o), "changes %s" % effects(o)[:1], w)
                if side == "weight":
                    ck.ob("get", inst, o.value == place["weight"], "returns %s" % show(o.value), w)
                    continue
                check_end(ck, "get", inst, o, prog, o.value, strip_type(fn.rt), place[side], typ[side], w)
        # -------------------------------------------------------------- set
        for fn in fns:
            side = setter_side(prog, fn, frm, to)
            if side is None:
                continue
            inst = "%s of %s" % (signature(fn), rec)
            if side == "?":
                ck.ob("set", inst, False, "cannot be told which end it sets", fn.loc)
                continue
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:400])
                if o.kind != "ret":
                    ck.ob("set", inst, False, "ends with an exception", w)
                    continue
                other = [e for e in effects(o) if e.loc != place[side] and not e.kind.startswith("call:") and
                         not owned_release(e, place[side])]
                ck.ob("set", inst, not other, "changes %s" % other[:2], w)
                if side == "weight":
                    v = o.load(place[side])
                    ck.ob("set", inst, v == par(fn, 0), "sets the weight to %s" % show(v), w)
                    continue
                v = o.load(place[side])
                ok = v[0] == "addr"
                ck.ob("set", inst, ok, "the %s end becomes %s" % (side, show(v)), w)
                if ok:
                    a = ident(o, prog, v[1], typ[side])
                    b = ident(o, prog, par(fn, 0), strip_type(fn.pt[0]))
                    ck.ob("set", inst, a is not None and a == b, "the %s end becomes %s" % (side, show(a) if a else "?"), w)
        # -------------------------------------------------------------- new
        for fn in [f for f in fns if f.kind == "ctor" and (not f.params or f.pt == ["float"])]:
            inst = "%s of %s" % (signature(fn), rec)
            for o in ck.outs(fn, once=True):
                fresh_link(ck, inst, o, o.load(F(THIS, hf)), lf, par(fn, 0) if fn.params else None, fn)
        # ------------------------------------------------------------ clone
        for fn in [f for f in fns if f.name == "clone"]:
            inst = "clone of %s" % rec
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:400])
                if o.kind != "ret":
                    ck.ob("clone", inst, False, "ends with an exception", w)
                    continue
                v = o.value[1] if o.value[0] == "deref" else o.value
                p = o.load(F(v, obj_field(prog, mutrec)))
                if p[0] != "addr" or p[1][0] != "obj":
                    ck.ob("clone", inst, False, "returns %s" % show(p), w)
                    continue
                wt = o.load(F(p[1], *lf["weight"]))
                ck.ob("clone", inst, wt == place["weight"], "has the weight %s" % show(wt), w)
                full = cond(o, par(fn, 0))
                full = cond(o, ("nz", par(fn, 0))) if full is None else full
                for side in ("from", "to"):
                    t = o.load(F(p[1], lf[side]))
                    if full is False:
                        ck.ob("clone", inst, t == NULL, "has a %s end without asking for relations" % side, w)
                    else:
                        have = cond(o, ("nz", place[side]))
                        if t == NULL:
                            ck.ob("clone", inst, have is False or full is None, "has no %s end" % side, w)
                        else:
                            ck.ob("clone", inst, have is not False, "has a %s end" % side, w)
                            a = ident(o, prog, deref(t), typ[side])
                            b = ident(o, prog, deref(place[side]), typ[side])
                            ck.ob("clone", inst, a == b, "the %s end is %s" % (side, show(a) if a else "?"), w)
        # ------------------------------------------------------------- same
        for fn in fns:
            if fn.kind in ("copyctor", "movector"):
                for o in ck.outs(fn, once=True):
                    ck.ob("same", "%s of %s" % (signature(fn), rec), o.load(F(THIS, hf)) == F(par(fn, 0), hf),
                          "refers to %s" % show(o.load(F(THIS, hf))), fn.loc)
            elif fn.name.startswith("operator ") or fn.name == "operator podio::LinkT" or (fn.kind == "conv"):
                if strip_type(fn.rt or "") == imm:
                    for o in ck.outs(fn, once=True):
                        v = o.value[1] if o.value[0] == "deref" else o.value
                        ck.ob("same", "conversion of %s" % rec, o.load(F(v, hf)) == F(THIS, hf), "refers to %s" %
                              show(o.load(F(v, hf))), fn.loc)
            elif fn.name == "operator=":
                for o in ck.outs(fn, once=True):
                    if o.kind == "ret":
                        ck.ob("same", "operator= of %s" % rec, smart(o, F(THIS, hf)) == F(par(fn, 0), hf), "refers to %s" %
                              show(smart(o, F(THIS, hf))), fn.loc)
    # ------------------------------------------------------------ collections
    colls = [Coll(ck, r) for r in link_recs(prog, "LinkCollection")
             if methods(prog, r, "at") and methods(prog, r, "push_back")]
    for c in colls:
        frm, to = link_args(prog, c.rec)
        lf = link_fields(ck, c.handle)
        s = Storage(c)
        for fn in c.ms("create", 0):
            for o in ck.outs(fn, once=True):
                if o.kind != "ret":
                    continue
                v = o.value[1] if o.value[0] == "deref" else o.value
                fresh_link(ck, "create of %s" % c.rec, o, o.load(F(v, obj_field(prog, strip_type(fn.rt)))), lf, None, fn)
        loads(ck, "load", c, s)
    pairs = [(c, None) for c in colls]
    p13.body(Sub(ck, "write", {"data", "single"}), pairs)
    p10.body(Sub(ck, "read", {"slots", "target", "single"}), pairs)
    ck.need("get", 60)
    ck.need("set", 40)
    ck.need("new", 20)
    ck.need("clone", 60)
    ck.need("same", 8)
    ck.need("write", 12)
    ck.need("read", 12)
    ck.need("load", 9)
    ck.assume("handles are copied with their object (P02)")


def link_args(prog, rec):
    """types of the from and to end of the instance of a link template"""
    inner = rec[rec.index("<") + 1:]
    parts, depth, cur = [], 0, ""
    for ch in inner:
        if ch == "<":
            depth += 1
        elif ch == ">":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    return parts[0], parts[1]


def link_fields(ck, handle):
    """where a link keeps its ends and its weight"""
    out = {}
    fs = {side: obj_member(ck, handle, "get" + side.capitalize()) for side in ("from", "to")}
    for side in ("from", "to"):
        f = set(fs[side])
        if len(f) > 1 and len(fs["to" if side == "from" else "from"]) == 1:
            f = f - fs["to" if side == "from" else "from"]
        if len(f) != 1:
            raise AnalysisError("the %s end of %s is stored in %s" % (side, handle, sorted(f)))
        out[side] = f.pop()
    fn = method(ck._prog, handle, "getWeight", 0)
    ob = deref(F(THIS, obj_field(ck._prog, handle)))
    v, path = field_of(ck, fn), []
    while v[0] == "f" and v != ob:
        path.insert(0, v[2])
        v = v[1]
    if v != ob or not path:
        raise AnalysisError("getWeight of %s does not return a member" % handle)
    out["weight"] = tuple(path)
    return out


def signature(fn):
    t = ""
    if fn.targs:
        t = "<%s>" % (fn.targs if isinstance(fn.targs, str) else ", ".join(map(str, fn.targs)))
    return "%s%s(%s)" % (fn.name, t, ", ".join(fn.pt or []))


def targ(fn):
    t = fn.targs
    if isinstance(t, (list, tuple)):
        t = t[0] if t else None
    return None if t is None else str(t).strip("<> ")


def getter_side(fn, frm, to):
    if fn.params:
        return None
    side = {"getFrom": "from", "getTo": "to", "getWeight": "weight"}.get(fn.name)
    if side:
        return side
    if fn.name == "get":
        t = targ(fn)
        if t in ("0", "1", "2"):
            return ("from", "to", "weight")[int(t)]
        if frm != to:
            return {frm: "from", to: "to"}.get(t)
    return None


def setter_side(prog, fn, frm, to):
    if len(fn.params) != 1:
        return None
    side = {"setFrom": "from", "setTo": "to", "setWeight": "weight"}.get(fn.name)
    if side:
        return side
    if fn.name == "set":
        muts = {b: a for a, b in handle_recs(prog)}
        t = strip_type(fn.pt[0])
        t = muts.get(t, t)
        if t == frm:
            return "from"
        if t == to:
            return "to"
        fits = [s for s, x in (("from", frm), ("to", to)) if fits_interface(x, t)]
        return fits[0] if len(fits) == 1 else "?"
    return None


def fits_interface(iface, t):
    i = next((i for i in all_interfaces() if i.full == iface), None)
    return i is not None and t in i.types


def owned_release(e, place):
    """releasing what the end referred to before"""
    return e.kind in ("delete", "release") and (e.loc == place or contains(e.loc, place))


def check_end(ck, rule, inst, o, prog, v, rec, place, typ, w):
    v = v[1] if v[0] == "deref" and v[1][0] == "obj" else v
    a = ident(o, prog, v, rec)
    have = cond(o, ("nz", place))
    if a == NULL:
        ck.ob(rule, inst, have is False, "returns an empty handle", w)
        return
    b = ident(o, prog, deref(place), typ)
    ck.ob(rule, inst, a == b, "returns %s" % (show(a) if a else "?"), w)
    ck.ob(rule, inst, have is True, "uses an end that may not exist", w)


def fresh_link(ck, inst, o, p, lf, weight, fn):
    w = "%s on path: %s" % (fn.loc, o.path()[:400])
    if p[0] != "addr" or p[1][0] != "obj":
        ck.ob("new", inst, False, "is %s" % show(p), w)
        return
    for side in ("from", "to"):
        t = o.load(F(p[1], lf[side]))
        ck.ob("new", inst, t == NULL, "the %s end is %s" % (side, show(t)), w)
    v = o.load(F(p[1], *lf["weight"]))
    ck.ob("new", inst, v == (C(1) if weight is None else weight), "the weight is %s" % show(v), w)
