"""P05: a collection that was put into a frame stays as it is"""
from ..frame import *
from ..sem import *

INSERT = ("emplace", "try_emplace", "insert")


def run(ck):
    ck.rule("owned", "the frame owns its collections through a private map of owning pointers")
    ck.rule("insert-only", "entries are only ever added to the map of collections, never replaced or removed")
    ck.rule("put-new", "a collection with an unused name is stored under exactly this name, gets the ID that the ID table "
                       "assigns to the name, and is returned")
    ck.rule("put-taken", "putting a collection with a name that is in use throws and changes nothing")
    ck.rule("put-raw", "putting a collection with a name that the raw data of the frame still holds throws")
    ck.rule("get", "a collection in the map is returned for its name, unchanged")
    ck.rule("by-id", "a request by ID is a request for the name that the ID table gives for it")
    ck.rule("wrappers", "the public put and get pass collection and name on unchanged, and return what was stored")
    prog = ck.load("core")
    for m in models(ck):
        f = m.mapfield
        ck.ob("owned", m.ty, "std::unique_ptr<podio::CollectionBase" in f["t"] and f["acc"] == "private",
              "the collections are held as " + f["t"], "%s:%s" % (m.rec["file"], m.rec["line"]))
        for fn in prog.by_rec[m.ty]:
            if fn.kind in ("ctor", "dtor", "copyctor", "movector", "copyasg", "moveasg") or fn.name == "operator=":
                continue
            for o in m.outs(fn):
                for e in effects(o):
                    if not has_prefix(e.loc, m.map):
                        continue
                    if e.loc == m.map:
                        ok = e.kind in INSERT or e.kind == "call:reserve"
                        ck.ob("insert-only", "%s::%s" % (m.ty, fn.name), ok, "changes the collections by %s" % e.kind, e.where)
                    elif not any(t[0] == "deref" for t in subterms(e.loc) if has_prefix(t, m.map)):
                        # the entry itself, not the collection
                        ck.ob("insert-only", "%s::%s" % (m.ty, fn.name), False, "replaces an entry: %r" % e, e.where)
        # ------------------------------------------------------------- put
        coll = [p for p in m.put.params if "CollectionBase" in p["t"]]
        nm = [p for p in m.put.params if "string" in p["t"]]
        C_, N = ("par", coll[0]["v"]), ("par", nm[0]["v"])
        for o in m.outs(m.put):
            w = "%s on path: %s" % (m.put.loc, o.path())
            had = m.present(o, N)
            eff = effects(o)
            if had is True:
                ck.ob("put-taken", m.ty, o.kind == "throw", "does not throw for a name that is in use", w)
                bad = [e for e in eff if e.loc != m.map or e.kind not in ("emplace", "try_emplace", "insert")]
                ck.ob("put-taken", m.ty, not bad, "changes the frame although the name is in use: %r" % bad, w)
                continue
            if o.kind != "ret":
                continue
            ck.ob("put-taken", m.ty, had is False, "stores a collection without checking whether the name is in use", w)
            ins = [e for e in eff if e.loc == m.map and e.kind in INSERT]
            ok = len(ins) == 1 and N in ins[0].args and any(C_ in subterms(a) or a == C_ for a in ins[0].args)
            ck.ob("put-new", m.ty, ok, "does not store the collection under its name exactly once: %r" % ins, w)
            ck.ob("put-new", m.ty, is_slot(m, o.value, N) or o.value == C_, "returns " + show(o.value), w)
            add = [e for e in o.events if e[0] == "call" and e[1] == IDT + "::add" and e[2] == m.ids]
            ck.ob("put-new", m.ty, len(add) == 1 and add[0][3] == (N,), "does not register the name exactly once: %s" % [[show(a) for a in e[3]] for e in add], w)
            sid = [e for e in o.events if e[0] == "call" and short_call(e[1]) == "setID"]
            tgt = (("deref", m.slot(N)), ("deref", C_))
            ok = len(sid) == 1 and sid[0][2] in tgt and len(add) == 1 and sid[0][3] == (add[0][4],)
            ck.ob("put-new", m.ty, ok, "the collection does not get the ID that belongs to its name: %s" % (
                [(show(e[2]), [show(a) for a in e[3]]) for e in sid]), w)
            raw = any(t[0] == "call" and contains(t, N) or contains(t, ("f", THIS, "m_data"))
                      for a in o.tests for t in subterms(a))
            asked = [e for e in o.events if e[0] == "call" and e[2] is not None and root_of(e[2]) == THIS and
                     e[1].endswith(("getAvailableCollections", "getCollectionBuffers"))]
            if "EmptyFrameData" not in m.ty:
                ck.ob("put-raw", "FrameModel::put", bool(asked or raw), "a name of the raw data can be used for another collection", w)
        # ------------------------------------------------------------- get
        N = par(m.get, 0)
        for o in m.outs(m.get):
            if m.present(o, N) is True and not any(e.kind in INSERT for e in effects(o)):
                w = "%s on path: %s" % (m.get.loc, o.path())
                ck.ob("get", m.ty, o.kind == "ret" and is_slot(m, o.value, N), "returns %s for a name that is in the map" % show(o.value), w)
                ck.ob("get", m.ty, not effects(o), "changes something: %r" % effects(o), w)
        idp = [p for p in m.byid.params if "CollectionBase" not in p["t"]][0]
        ID = ("par", idp["v"])
        for o in m.outs(m.byid):
            w = "%s on path: %s" % (m.byid.loc, o.path())
            q = [e for e in o.events if e[0] == "call" and e[1] == IDT + "::name"]
            ck.ob("by-id", m.ty, all(e[2] == m.ids and e[3] == (ID,) for e in q) and q, "asks for the name of something else: %s" % (
                [[show(a) for a in e[3]] for e in q]), w)
            keys = {a[2] for a in o.tests if a[0] in ("has", "inserted") and a[1] == m.map}
            ck.ob("by-id", m.ty, all(any(contains(k, e[4]) for e in q) for k in keys), "looks up %s" % [show(k) for k in keys], w)
    # ----------------------------------------------------- public interface
    concept = "podio::Frame"
    for fn in prog.by_rec.get(concept, []):
        if fn.name not in ("put", "get", "getCollectionForWrite"):
            continue

        def op(f):
            return f.get("rec", "").startswith("podio::Frame::Frame")
        for o in ck.outs(fn, opaque=op, okey="wrap"):
            w = "%s on path: %s" % (fn.loc, o.path())
            inst = "%s/%s" % (fn.q, fn.params[0]["t"])
            calls = [e for e in o.events if e[0] == "call" and e[1].startswith("podio::Frame::FrameConcept::") and short_call(e[1]) in ("get", "put")]
            ck.ob("wrappers", inst, len(calls) == 1, "asks the frame model %d times" % len(calls), w)
            if len(calls) != 1:
                continue
            e = calls[0]
            names = [("par", p["v"]) for p in fn.params if "string" in p["t"]]
            ck.ob("wrappers", inst, [a for a in e[3] if a in names] == names, "passes on another name: %s" % [show(a) for a in e[3]], w)
            if fn.name == "put":
                cp = [("par", p["v"]) for p in fn.params if "string" not in p["t"]][0]
                # made from exactly this collection
                arg = [a for a in e[3] if a not in names]
                src = [ev for ev in o.events if ev[0] == "moved" and ev[1] == cp]
                ck.ob("wrappers", inst, len(arg) == 1 and (cp in subterms(arg[0]) or bool(src) or arg[0][0] == "addr" and contains(o.load(arg[0][1]), cp)), "stores something else: %s" % [show(a) for a in arg], w)
            if o.kind == "ret" and o.value is not None and o.value != ("void",) and not (fn.rt or "").startswith("void"):
                ck.ob("wrappers", inst, contains(o.value, e[4]) or o.value == e[4] or o.value == NULL, "returns something else: " + show(o.value), w)
    ck.assume("a collection that is put into a frame is given as a valid pointer")
    ck.need("put-new", 8)
    ck.need("put-taken", 6)
    ck.need("insert-only", 4)
    ck.need("get", 4)
    ck.need("by-id", 4)
    ck.need("wrappers", 8)
    ck.need("put-raw", 1)
