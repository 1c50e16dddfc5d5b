"""P04: each stored collection is unpacked at most once and completely"""
from ..frame import *
from ..sem import *

RAW = "getCollectionBuffers"


def run(ck):
    ck.rule("only-missing", "the raw data is only asked for a collection that is not in the map, at most once per request, "
                            "and for exactly the requested name")
    ck.rule("atomic", "from the check that a collection is missing until it is in the map one lock is held throughout")
    ck.rule("convert", "the buffers of a normal collection pass through the schema evolution with the version and type they "
                       "say they have; those of a subset collection are used as they are")
    ck.rule("objects", "the objects are created before the collection is published")
    ck.rule("id", "the collection gets the ID that the ID table of the frame gives for its name")
    ck.rule("publish", "an unpacked collection is stored under its name, and what is returned is what the map holds")
    ck.rule("relations", "the relations are connected after the collection was stored and before the request returns")
    ck.rule("nothing", "a request only returns nothing if the raw data does not have the collection")
    ck.rule("by-id", "a request by ID hands out the collection of the name, and reports exactly whether there is one")
    ck.rule("take-out", "frame data hands out its buffers for a name once and removes them at the same time")
    prog = ck.load("core")

    def request(m, fn, name_of, inst):
        """obligations of one way to request a collection"""
        for o in m.outs(fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            evs = o.events
            raw = [(i, e) for i, e in enumerate(evs) if e[0] == "call" and short_call(e[1]) == RAW]
            keys = {a[2] for a in o.tests if a[0] == "has" and a[1] == m.map}
            N = name_of(o)
            if not raw:
                if o.kind == "ret" and N is not None:
                    had = m.present(o, N)
                    if had is not True:
                        # no collection: only if there is no raw data at all
                        nodata = any(a[0] == "nz" and not v and root_of(a[1]) == THIS or
                                     a[0] == "eq" and v and NULL in a[1:] for a, v in o.tests.items())
                        ck.ob("nothing", inst, nodata, "does not ask the raw data for a missing collection", w)
                continue
            ck.ob("only-missing", inst, len(raw) == 1, "asks the raw data %d times" % len(raw), w)
            i, e = raw[0]
            name = e[3][0]
            ck.ob("only-missing", inst, name == N and root_of(e[2]) == THIS, "asks the raw data for " + show(name), w)
            ck.ob("only-missing", inst, m.present(o, name) is False or any(
                a[0] == "has" and a[1] == m.map and a[2] == name and not v for a, v in o.tests.items()),
                "asks the raw data although the collection may be in the map", w)
            buf = e[4]
            got = [v for a, v in o.tests.items() if a[0] in ("hav", "nz", "has_value") and a[1] == buf]
            if o.kind != "ret":
                continue
            created = [(j, c) for j, c in enumerate(evs) if c[0] == "call" and c[1] == "()" and
                       isinstance(c[2], tuple) and contains(c[2], buf) and "createCollection" in show(c[2])]
            if not created:
                ck.ob("nothing", inst, got == [False] or False in got, "drops the data of a collection", w)
                ck.ob("nothing", inst, not contains(o.value, buf), "returns something else: " + show(o.value), w)
                continue
            ck.ob("convert", inst, len(created) == 1, "creates %d collections" % len(created), w)
            j, c = created[0]
            subset = None
            for a, v in o.tests.items():
                if a[0] == "nz" and a[1][0] == "f" and a[1][1] == buf and a[1][2] == "data":
                    subset = not v
                elif a[0] == "eq" and NULL in a[1:] and any(x[0] == "f" and x[1] == buf and x[2] == "data" for x in a[1:]):
                    subset = v
            evolved = [x for x in evs if x[0] == "call" and short_call(x[1]) == "evolveBuffers"]
            src = c[3][0]
            if subset is True:
                ok = not contains_call(src, "evolveBuffers") and c[3][1] == C(True) and contains(src, buf)
                ck.ob("convert", inst, ok, "a subset collection is not created as such from its own buffers", w)
            else:
                ck.ob("convert", inst, subset is False, "the kind of the collection is not determined from its buffers", w)
                ok = len(evolved) == 1 and src == evolved[0][4]
                ck.ob("convert", inst, ok, "the collection is not created from the converted buffers", w)
                if evolved:
                    a = evolved[0][3]
                    ok = len(a) == 3 and a[0] == buf and a[1] == ("f", buf, "schemaVersion") and is_type_of(a[2], buf)
                    ck.ob("convert", inst, ok, "converts %s" % [show(x)[-60:] for x in a], w)
                ck.ob("convert", inst, c[3][1] == C(False), "creates it as subset collection", w)
            coll = c[4]
            slot = m.slot(name)

            def on(call_name):
                return [(k, x) for k, x in enumerate(evs) if x[0] == "call" and short_call(x[1]) == call_name and
                        x[2] is not None and (x[2] == ("deref", coll) or x[2] == ("deref", slot))]
            ins = [(k, x) for k, x in enumerate(evs) if x[0] == "call" and x[2] == m.map and short_call(x[1]) in ("emplace", "try_emplace", "insert")]
            ck.ob("publish", inst, len(ins) == 1 and name in ins[0][1][3] and any(contains(a, coll) for a in ins[0][1][3]),
                  "does not store the collection under its name", w)
            if not ins:
                continue
            pub = ins[0][0]
            par_ = on("prepareAfterRead")
            ck.ob("objects", inst, len(par_) == 1 and j < par_[0][0] < pub, "the objects are not created before the collection is stored", w)
            sid = on("setID")
            ok = len(sid) == 1 and sid[0][0] < pub
            ck.ob("id", inst, ok, "the ID is not set before the collection is stored", w)
            if sid:
                q = [x for x in evs if x[0] == "call" and x[1] == IDT + "::collectionID" and x[2] == m.ids and x[3] == (name,)]
                ck.ob("id", inst, bool(q) and any(contains(sid[0][1][3][0], x[4]) or sid[0][1][3][0] == x[4] for x in q),
                      "the ID is " + show(sid[0][1][3][0]), w)
            if fn is m.get:
                ck.ob("publish", inst, is_slot(m, o.value, name) or o.value == coll, "returns " + show(o.value), w)
            ref = on("setReferences")
            ok = len(ref) == 1 and ref[0][0] > pub and (ref[0][1][3][0] in (("addr", THIS), ("addr", ("deref", THIS))) or root_of(ref[0][1][3][0]) == THIS)
            ck.ob("relations", inst, ok, "the relations are not connected after storing the collection", w)
            # one lock from the check until the collection is stored
            tests = [k for k, x in enumerate(evs[:pub]) if x[0] == "br" and m.map in subterms(x[1]) and x[1][0] == "has"]
            held_at_ins = set(ins[0][1][6])
            ok = False
            for k in tests:
                locked = set()
                for x in evs[:k]:
                    if x[0] == "lock":
                        locked.add(x[1])
                    elif x[0] == "unlock":
                        locked.discard(x[1])
                for x in evs[k:pub]:
                    if x[0] == "unlock":
                        locked.discard(x[1])
                if locked & held_at_ins and k < i:
                    ok = True
            ck.ob("atomic", inst, ok, "another thread can unpack the collection between the check and storing it", w)
            # and those who find it in the map wait for its relations
            rel = ref[0][1][6] if ref else ()
            first = next((x for x in evs if x[0] == "lock"), None)
            ck.ob("atomic", inst, bool(set(rel) & held_at_ins), "other threads can get the collection before its relations are connected", w)

    def contains_call(t, n):
        return any(x[0] == "call" and short_call(str(x[1])) == n for x in subterms(t))

    def is_type_of(t, buf):
        return t == ("f", buf, "type") or any(x == ("f", buf, "type") for x in subterms(t))

    for m in models(ck):
        if "EmptyFrameData" in m.ty:
            continue
        N = par(m.get, 0)
        request(m, m.get, lambda o: N, m.ty + "::get(name)")

        def id_name(o):
            q = [e for e in o.events if e[0] == "call" and e[1] == IDT + "::name"]
            return q[0][4] if q and any(a[0] in ("hav", "nz", "has_value") and a[1] == q[0][4] and v for a, v in o.tests.items()) else None
        request(m, m.byid, id_name, m.ty + "::get(id)")
        # a hit must be found under the lock of the unpacking
        for o in m.outs(m.get):
            if o.kind == "ret" and m.present(o, N) is True and not any(e[0] == "call" and short_call(e[1]) == RAW for e in o.events):
                rels = [set(e[6]) for p in m.outs(m.get) for e in p.events if e[0] == "call" and short_call(e[1]) == "setReferences"]
                held = set()
                for e in o.events:
                    if e[0] == "lock":
                        held.add(e[1])
                ck.ob("atomic", m.ty + "::get(name) hit", all(held & r for r in rels), "a collection whose relations are being "
                      "connected by another thread is handed out", m.get.loc)
        cp = [p for p in m.byid.params if "CollectionBase" in p["t"]][0]
        out = ("par", cp["v"])
        for o in m.outs(m.byid):
            if o.kind != "ret":
                continue
            w = "%s on path: %s" % (m.byid.loc, o.path())
            wr = [e for e in o.events if e[0] == "wr" and e[1] == out]
            v = truth(o.value)
            if v == C(True):
                key = [a[2] for a in o.tests if a[0] == "has" and a[1] == m.map]
                ok = len(wr) == 1 and len(set(key)) == 1 and (wr[0][2] == m.slot(key[0]))
                if not ok and wr:
                    ok = any(is_slot(m, wr[-1][2], k) or wr[-1][2] == o.load(m.slot(k)) and any(
                        x[0] == "call" and x[2] == m.map and x[3][:1] == (k,) for x in o.events) for k in key)
                ck.ob("by-id", m.ty, ok, "reports success with %s" % [show(e[2]) for e in wr], w)
            elif v == C(False):
                unknown = any(a[0] in ("hav", "nz", "has_value") and not tv and a[1][0] == "call" and a[1][1] == IDT + "::name" for a, tv in o.tests.items())
                missing = any(a[0] == "nz" and not tv for a, tv in o.tests.items())
                ck.ob("by-id", m.ty, unknown or missing, "reports that there is no collection although there is one", w)
            else:
                ck.ob("by-id", m.ty, False, "answers " + show(o.value), w)
    # ------------------------------------------------------ frame data classes
    for ty in ("podio::ROOTFrameData",):
        fn = method(prog, ty, RAW, 1, optional=True)
        if fn is None:
            continue
        N = par(fn, 0)
        for o in ck.outs(fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            eff = [e for e in effects(o) if root_of(e.loc) == THIS and e.kind in ("extract", "erase")]
            if o.value[0] == "nullopt":
                ck.ob("take-out", ty, all(e.args == (N,) for e in eff), "removes something else", w)
                ck.ob("take-out", ty, any(contains(a, N) for a in o.tests), "has nothing without looking for the name", w)
            else:
                cont = eff[0].loc if eff else None
                vals = [o.value] + [o.load(("f", t, "data")) for t in subterms(o.value) if t[0] in ("obj", "var")]
                ok = len(eff) == 1 and contains(eff[0].args[0], N) and any(contains(v, cont) and contains(v, N) for v in vals)
                ck.ob("take-out", ty, ok, "does not hand out the buffers of the name and remove them: " + show(o.value), w)
    ck.assume("a FrameData implementation hands out the buffers for a name at most once (checked for ROOTFrameData; those of the "
              "other backends need libraries that are not available here)")
    ck.need("only-missing", 12)
    ck.need("atomic", 5)
    ck.need("convert", 10)
    ck.need("relations", 4)
    ck.need("id", 8)
    ck.need("by-id", 3)
    ck.need("take-out", 3)
