"""P06: collection IDs and names are inverse to each other"""
from ..sem import *

T = "podio::CollectionIDTable"


def run(ck):
    ck.rule("lookup", "a lookup returns the entry of one parallel vector at the position of the key in the other one, "
                      "and nothing only if the key is not there")
    ck.rule("present", "presence tests answer exactly whether the key is in its vector")
    ck.rule("add-known", "adding a known name returns the ID at the position of the name and changes nothing")
    ck.rule("add-new", "adding an unknown name appends the name and an ID once each and returns that ID")
    ck.rule("id-from-name", "the ID of a name is computed from the name (its content and full length) and constants only")
    ck.rule("construct", "a table constructed from IDs and names holds exactly these")
    ck.rule("parallel", "on every path of every member function both vectors grow by the same number of entries")
    ck.rule("writers", "nobody but the table itself changes the two vectors")
    prog = ck.load("core")

    def opaque(f):
        return f.get("n", "").startswith("MurmurHash3")

    def outs(fn, **kw):
        return ck.outs(fn, opaque=opaque, okey="murmur", **kw)

    names = field_of(ck, method(prog, T, "names", 0))
    ids = field_of(ck, method(prog, T, "ids", 0))

    def lookup(fn, src, dst):
        key = par(fn, 0)
        for o in outs(fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            if o.kind != "ret":
                ck.ob("lookup", fn.q, False, "lookup throws", w)
                continue
            v = o.value
            found = in_table(o, src, key, (dst,))
            if v[0] == "nullopt":
                ck.ob("lookup", fn.q, found is False, "reports an entry as absent although it is in the table", w)
            elif v[0] == "some":
                e = v[1]
                ok = e[0] == "elem" and e[1] == dst and index_of(o, e[2], src, key) and found is True
                ck.ob("lookup", fn.q, ok, "does not return the entry that belongs to the key but " + show(e), w)
            else:
                ck.ob("lookup", fn.q, False, "returns " + show(v), w)

    byname = method(prog, T, "collectionID", 1)
    byid = method(prog, T, "name", 1)
    lookup(byname, names, ids)
    lookup(byid, ids, names)
    for fn in methods(prog, T, "present", 1):
        s, d = (ids, names) if "int" in fn.params[0]["t"] else (names, ids)
        for o in outs(fn):
            found = in_table(o, s, par(fn, 0), (d,))
            v = truth(o.value) if o.kind == "ret" else None
            if v is not None and not is_c(v):
                a = v[1] if v[0] == "not" else v
                # the answer itself is the test
                p = par(fn, 0)
                ok = v[0] == "has" and v[1] == s and v[2] == p
                if v[0] == "lt":
                    ok = v[1] == ("pos", s, p) and v[2][0] == "size" and v[2][1] in (s, d)
            else:
                ok = v is not None and found is not None and bool(v[1]) == found
            ck.ob("present", "%s(%s)" % (fn.q, fn.params[0]["t"]), ok, "wrong answer " + show(o.value), fn.loc + " on path: " + o.path())
    add = method(prog, T, "add", 1)
    key = par(add, 0)
    for o in outs(add):
        w = "%s on path: %s" % (add.loc, o.path())
        if o.kind != "ret":
            continue
        eff = [e for e in effects(o) if has_prefix(e.loc, THIS)]
        known = in_table(o, names, key, (ids,))
        if known is True:
            v = o.value
            ok = v[0] == "elem" and v[1] == ids and index_of(o, v[2], names, key)
            ck.ob("add-known", add.q, ok, "returns %s for a known name" % show(v), w)
            ck.ob("add-known", add.q, not eff, "changes the table for a known name: %r" % eff, w)
        else:
            ok = known is False
            ck.ob("add-new", add.q, ok, "a name is added without checking that it is not there yet", w)
            pn = [e for e in eff if e.kind in ("push_back", "emplace_back") and e.loc == names]
            pi = [e for e in eff if e.kind in ("push_back", "emplace_back") and e.loc == ids]
            ok = len(pn) == 1 and len(pi) == 1 and len(eff) == 2 and pn[0].args == (key,)
            ck.ob("add-new", add.q, ok, "does not append exactly the name and one ID: %r" % eff, w)
            if pi:
                idv = pi[0].args[0]
                ck.ob("add-new", add.q, o.value == idv, "returns %s but stores %s" % (show(o.value), show(idv)), w)
                lv = {x for x in leaves(idv) if x[0] not in ("c",) and not (x[0] == "var" and contains(idv, ("addr", x)))}
                ck.ob("id-from-name", add.q, lv == {key}, "the ID depends on %s" % sorted(show(x) for x in lv), w)
                lens = [t for t in subterms(idv) if t == ("size", key)]
                whole = lens and not [t for t in subterms(idv) if t[0] == "call" and t[1].endswith("Murmur") and ("size", key) not in t[3]]
                # every byte count handed to a hash function is the full length
                for t in subterms(idv):
                    if t[0] == "call" and "Hash" in t[1]:
                        whole = ("size", key) in t[3] and key in t[3]
                    elif t[0] == "hash":
                        whole = t[1] == key
                ck.ob("id-from-name", add.q, whole, "the ID is not computed from the complete name: " + show(idv), w)
    for fn in prog.by_rec.get(T, []):
        if fn.kind == "ctor" and len(fn.params) == 2:
            for o in outs(fn):
                for loc, what in ((ids, "int"), (names, "string")):
                    p = [par(fn, i) for i in range(2) if what in fn.params[i]["t"].split("allocator")[0]]
                    v = o.load(loc)
                    ck.ob("construct", "%s(%s)" % (fn.q, fn.params[0]["t"]), len(p) == 1 and v == p[0], "%s is initialised with %s" % (show(loc), show(v)), fn.loc)
        if fn.kind in ("dtor",) or "default" in fn.raw:
            continue
        for o in outs(fn):
            cnt = {names: 0, ids: 0}
            other = None
            for e in effects(o):
                for c in cnt:
                    if e.loc == c or (e.loc[0] == "f" and has_prefix(e.loc, c)):
                        if e.kind in ("push_back", "emplace_back"):
                            cnt[c] += 1
                        elif e.kind == "wr" and (fn.kind != "method" or fn.name == "operator="):
                            cnt[c] += 100
                        elif e.kind == "clear":
                            cnt[c] += 1000
                        else:
                            other = e
                    elif e.loc[0] == "elem" and e.loc[1] == c:
                        other = e
            if fn.kind == "ctor" and not fn.params:
                continue
            ok = cnt[names] == cnt[ids] and other is None
            if any(cnt.values()) or not ok:
                ck.ob("parallel", fn.q, ok, "names and IDs are changed differently (%s): %d / %d" % (other, cnt[names], cnt[ids]), fn.loc)
    # encapsulation: the vectors are private and there is no friend
    rec = prog.recs[T]
    for f in rec["fields"]:
        if F(THIS, f["n"]) in (names, ids):
            ck.ob("writers", f["n"], f["acc"] == "private" and not rec["friends"], "the field can be changed from outside", "%s:%s" % (rec["file"], rec["line"]))
    for fn in prog.by_rec.get(T, []):
        rt = fn.rt or ""
        if rt.endswith(("&", "*")) and "vector" in rt:
            ck.ob("writers", fn.q, rt.startswith("const "), "hands out a mutable reference to the table", fn.loc)
    ck.need("lookup", 4)
    ck.need("present", 4)
    ck.need("add-known", 2)
    ck.need("add-new", 3)
    ck.need("construct", 4)
    ck.need("parallel", 1)
    ck.need("writers", 4)
