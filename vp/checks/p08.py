"""P08: every tracked object knows its collection and its position"""
from ..edm import *

UNTRACKED = C(-1)


def id_writes(c, o, obj=None):
    """changes of the identity of objects of c (of the object at ptr obj) that
    existed before"""
    out = []
    for e in effects(o):
        if e.kind != "wr":
            continue
        for s in subterms(e.loc):
            if s[0] == "f" and s[2] == c.idf and not is_local(s[1]) and (obj is None or s == F(obj, c.idf)):
                out.append(e)
                break
    return out


def final_id(c, o, ptr):
    """(index, collection) of an object at the end of a path"""
    obj = deref(ptr)
    loc = F(obj, c.idf)
    return o.load(F(loc, "index")), o.load(F(loc, "collectionID"))


def run(ck):
    ck.rule("created", "an object created in or pushed to a normal collection ends up with its position in it as index "
                       "and the ID of the collection")
    ck.rule("read", "objects made from read data get their position as index and the ID of the collection")
    ck.rule("assigned", "assigning an ID to a normal collection gives it to every object, which keeps its index")
    ck.rule("subset", "operations on a subset collection never change the identity of an object")
    ck.rule("steady", "no other operation of a collection or a handle changes the identity of an object")
    ck.rule("untracked", "a new or copied object is untracked")
    ck.rule("report", "a handle reports the identity of its object, or an untracked one if it has no object")
    ck.rule("collid", "a collection reports the ID that was assigned to it")
    prog = ck.load("core", "cover")
    colls = all_colls(ck)
    seen = set()
    for c in colls:
        cid = c.id
        # -------------------------------------------------- create, push_back
        for fn in c.ms("create") + c.ms("push_back", 1):
            name = "%s::%s(%s)" % (c.rec, fn.name, ", ".join(p["t"] for p in fn.params)[:60])
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path())
                adds = [e for e in effects(o) if c.is_entry_add(e)]
                if c.sub(o) is not False or o.kind == "throw":
                    bad = id_writes(c, o)
                    ck.ob("subset" if c.sub(o) else "created", name, not bad, "changes the identity: %s" % bad, w)
                    continue
                for e in adds:
                    if len(e.args) != 1:
                        continue
                    i, ci = final_id(c, o, e.args[0])
                    ck.ob("created", name, new_position(c, o, i, e), "index is %s" % show(i), w)
                    ck.ob("created", name, ci == o.load(cid), "collection ID is %s" % show(ci), w)
        # -------------------------------------------------------------- read
        fn = c.m("prepareAfterRead", 0)
        n = 0
        for o in ck.outs(fn, once=True):
            for e in effects(o):
                if not c.is_entry_add(e) or len(e.args) != 1:
                    continue
                n += 1
                w = "%s on path: %s" % (fn.loc, o.path())
                i, ci = final_id(c, o, e.args[0])
                ok = i[0] == "ind" and i[2] == C(0) and (len(i) < 4 or i[3] == 1)
                ok = ok or linear(i)[0] is not None and new_position_in_loop(c, o, i, e)
                ck.ob("read", c.rec, ok, "index of a read object is %s" % show(i), w)
                ck.ob("read", c.rec, ci == o.load(cid), "collection ID of a read object is %s" % show(ci), w)
        if not n:
            ck.ob("read", c.rec, False, "no objects are made from the data", fn.loc)
        # ---------------------------------------------------------- assigned
        fn = c.m("setID", 1)
        ID = par(fn, 0)
        outs = ck.outs(fn, once=True)
        for o in outs:
            w = "%s on path: %s" % (fn.loc, o.path())
            ck.ob("collid", c.rec, o.load(cid) == ID, "the collection does not remember its ID", w)
            if c.sub(o) is True:
                bad = id_writes(c, o)
                ck.ob("subset", c.rec + "::setID", not bad, "changes the identity of referenced objects: %s" % bad, w)
            for e in id_writes(c, o):
                if c.sub(o) is True:
                    continue
                if e.loc[0] == "f" and e.loc[2] == "index":
                    ck.ob("assigned", c.rec, e.args[0] == e.loc, "changes the index to %s" % show(e.args[0]), w)
        normal = [o for o in outs if c.sub(o) is not True and o.kind == "ret"]

        def gives(el, e):
            if not (e.kind == "wr" and has_prefix(e.loc, F(deref(el), c.idf))):
                return False
            return e.loc == F(deref(el), c.idf, "collectionID") and e.args[0] == ID or (
                e.loc == F(deref(el), c.idf) and contains(e.args[0], ID))
        hit, miss = every(normal, c.entries, gives)
        ck.ob("assigned", c.rec, bool(hit) and not miss, "not every object gets the ID", fn.loc)
        for o, e in hit:
            v = F(deref([s for s in subterms(e.loc) if s[0] == "elem"][0]), c.idf)
            ck.ob("assigned", c.rec, o.load(F(v, "collectionID")) == ID and o.load(F(v, "index")) == F(v, "index"),
                  "identity becomes {%s, %s}" % (show(o.load(F(v, "index"))), show(o.load(F(v, "collectionID")))), fn.loc)
        g = c.m("getID", 0)
        for o in ck.outs(g):
            ck.ob("collid", c.rec, o.value == cid, "getID reports %s" % show(o.value), g.loc)
        # ------------------------------------------------------------- steady
        for fn in c.fns:
            if fn.kind != "method" or fn.static or fn.name in ("create", "push_back", "setID", "prepareAfterRead", "from"):
                continue
            if fn.name in ("print",) or fn.acc == "private":
                continue
            al = dict(assume=Storage(c).alive()) if fn.name in ("clear", "prepareForWrite", "setReferences") else {}
            for o in ck.outs(fn, solo=True, opaque=lambda f: f.get("n") in ("operator<<", "to_json"), okey="noprint", **al):
                bad = id_writes(c, o)
                ck.ob("steady", "%s::%s" % (c.rec, fn.name), not bad, "changes the identity of objects: %s" % bad[:3],
                      "%s on path: %s" % (fn.loc, o.path()))
        # --------------------------------------------------------- untracked
        if c.obj in seen:
            continue
        seen.add(c.obj)
        for fn in prog.by_rec.get(c.obj, []):
            if fn.kind not in ("ctor", "copyctor", "mctor", "movector"):
                continue
            given = [par(fn, i) for i, p in enumerate(fn.params) if "ObjectID" in p["t"]]
            for o in ck.outs(fn, once=True):
                if o.kind == "throw":
                    continue
                i = o.load(F(THIS, c.idf, "index"))
                v = o.load(F(THIS, c.idf))
                inst = "%s(%s)" % (c.obj, ", ".join(p["t"] for p in fn.params)[:60])
                if given:
                    ok = v == given[0] or (i == F(given[0], "index") and
                                           o.load(F(THIS, c.idf, "collectionID")) == F(given[0], "collectionID"))
                    ck.ob("untracked", inst, ok, "identity is %s, not what was given" % show(v), fn.loc)
                else:
                    i = part(v, 0) if i[0] == "f" else i
                    ck.ob("untracked", inst, i == UNTRACKED, "index is %s" % show(i), fn.loc)
    # ------------------------------------------------------------------ handles
    for pair in handle_recs(prog):
        for h in pair:
            idf = id_field(prog, pointee(prog, h))
            P = F(THIS, obj_field(prog, h))
            for fn in prog.by_rec[h]:
                if fn.name in ("id", "getObjectID") and not fn.params:
                    for o in ck.outs(fn):
                        live = o.tests.get(("nz", P))
                        if live is None:
                            ok = False
                        elif live:
                            ok = o.value == F(deref(P), idf)
                        else:
                            v = part(o.value, 0)
                            ok = is_c(v) and v[1] < 0
                        ck.ob("report", "%s::%s" % (h, fn.name), ok, "reports %s" % show(o.value),
                              "%s on path: %s" % (fn.loc, o.path()))
                    continue
                if fn.kind != "method":
                    continue
                for o in ck.outs(fn, once=True, opaque=lambda f: f.get("n") in ("operator<<", "to_json"), okey="noprint"):
                    bad = [e for e in effects(o) if e.kind == "wr" and any(
                        s[0] == "f" and s[2] == idf and s[1][0] == "deref" and not is_local(s[1]) for s in subterms(e.loc))]
                    ck.ob("steady", "%s::%s" % (h, fn.name), not bad, "changes the identity of an object: %s" % bad[:3],
                          "%s on path: %s" % (fn.loc, o.path()))
    ck.need("created", 6 * len(colls))
    ck.need("read", 2 * len(colls))
    ck.need("assigned", 3 * len(colls))
    ck.need("report", 50)
    ck.need("untracked", 25)


def part(v, k):
    """k-th value of an aggregate"""
    if v[0] == "agg" and k < len(v[2]):
        return v[2][k][1]
    return v


def new_position_in_loop(c, o, idx, add):
    b, off = linear(idx)
    return b[0] == "size" and b[1] == c.entries and off == (0 if len(b) == 2 else -b[2])
