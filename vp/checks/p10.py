"""P10: relations are written to and read from the same place"""
from ..io import *
from .p13 import element_of, mentions, own_container


def run(ck):
    ck.rule("slots", "each relation is written to one slot of its own, the slots are numbered without gaps, and it is read "
                     "from the slot it is written to")
    ck.rule("vecslots", "each vector member has an entry of its own in the list of vector members: the entry that is "
                        "registered for writing, that new buffers have, that is read and that is released is the same "
                        "and has the type of the member")
    ck.rule("elements", "reading makes exactly one target for every stored ID of a one-to-many relation, in order")
    ck.rule("target", "the target that is made for an ID is the element at the index of this ID in the collection of this "
                      "ID; there is none if the ID refers to nothing or the collection is not available")
    ck.rule("single", "reading sets the one-to-one relation of every object from the ID at the position of the object")
    ck.rule("home", "objects that are read look for the elements of a relation or vector member where reading puts them")
    ck.rule("subset", "the elements of a subset collection are found by the IDs in its slot, one for each, in order")
    ck.rule("buffers", "new buffers have as many usable slots as reading and writing expect, and none shares memory")
    ck.rule("adopt", "a collection made from buffers takes over their data, references and vector members")
    ck.load("core", "cover")
    ck.assume("a collection that a collection ID leads to has the type of the relation (or one of the types of its interface)")
    colls = all_colls(ck)
    body(ck, types_of(ck, colls))
    ck.need("slots", 20)
    ck.need("elements", 6)
    ck.need("target", 20)
    ck.need("single", 10)
    ck.need("subset", len(colls))
    ck.need("vecslots", 12)
    ck.need("buffers", 4 * len(colls))
    ck.need("adopt", 2 * len(colls))


def body(ck, types):
    prog = ck._prog
    creators = creation_functions(ck)
    for c, dt in types:
        s = Storage(c)
        rels = relations(ck, c, dt)
        many = [r for r in rels if r.kind == "many"]
        ones = [r for r in rels if r.kind == "one"]
        vecs = [r for r in rels if r.kind == "vec"]
        home = homes(ck, c, s, many + vecs)
        # ------------------------------------------------------------- write
        written = {}
        fn = c.m("prepareForWrite", 0)
        for o in ck.outs(fn, solo=True, assume=s.alive()):
            if c.sub(o) is not False:
                continue
            off = {r for r in ones if any(v is False and mentions_only(a, r) for a, v in o.tests.items())}
            for e in effects(o):
                if e.kind not in FILL or not e.args:
                    continue
                if len(off) == 1 and slot(s, e.loc) is not None and null_id(e.args[0]):
                    written.setdefault(next(iter(off)), set()).add(slot(s, e.loc))
                for r in rels:
                    if r.kind == "vec":
                        if e.loc[0] == "deref" and e.loc[1] in s.ptrs and any(
                                element_of(c, r, x) for x in subterms(e.args[0])):
                            written.setdefault(r, set()).add(e.loc[1])
                    elif slot(s, e.loc) is not None:
                        h = handle_of_id(e.args[0])
                        if h is not None and (mentions(h, r.field) if r.kind == "one" else element_of(c, r, h)):
                            written.setdefault(r, set()).add(slot(s, e.loc))
            for e in effects(o):
                if e.kind in ("insert", "append_range") and e.loc[0] == "deref" and e.loc[1] in s.ptrs:
                    for r in vecs:
                        if any(own_container(c, r, x) for a in e.args for x in subterms(a)):
                            written.setdefault(r, set()).add(e.loc[1])
        for r in rels:
            ck.ob("slots" if r.kind != "vec" else "home", "%s of %s" % (r, c.rec), len(written.get(r, ())) == 1,
                  "is written to %s" % sorted(map(str, written.get(r, ()))), fn.loc)
        wslot = {r: next(iter(written[r])) for r in rels if len(written.get(r, ())) == 1}
        nums = sorted(wslot[r] for r in many + ones if r in wslot)
        ck.ob("slots", c.rec, nums == list(range(len(many + ones))), "relations are written to the slots %s" % nums, fn.loc)
        # -------------------------------------------------------------- read
        fn = c.m("setReferences", 1)
        outs = ck.outs(fn, solo=True, assume=s.alive())
        normal = [o for o in outs if c.sub(o) is not True and o.kind == "ret" and not contradictory(o)]
        subset = [o for o in outs if c.sub(o) is not False and o.kind == "ret" and not contradictory(o)]
        for r in many:
            inst = "%s of %s" % (r, c.rec)
            H = home.get(r)
            if H is None:
                continue
            multi(ck, c, s, fn, normal, inst, deref(H), wslot.get(r), lambda o, e: target(o, e.args[0]) if len(e.args) == 1 else
                  made(o, e.args), "elements")
        for r in ones:
            single(ck, c, s, fn, normal, "%s of %s" % (r, c.rec), r, wslot.get(r))
        multi(ck, c, s, fn, subset, c.rec + " as subset", c.entries, 0,
              lambda o, e: target(o, e.args[0]) if len(e.args) == 1 else None, "subset")
        # nothing else is connected
        hosts = {deref(h) for h in home.values() if h is not None}
        for o in normal:
            if c.sub(o) is None:
                continue
            for e in effects(o):
                if e.kind in FILL and e.loc[0] == "deref" and e.loc[1] in s.ptrs and e.loc not in hosts:
                    ck.ob("elements", c.rec, False, "adds elements to %s, where no object looks for them" % show(e.loc), e.where)
        # ------------------------------------------------------------- objects
        for r in vecs:
            ck.ob("home", "%s of %s" % (r, c.rec), r in wslot and home.get(r) == wslot[r],
                  "is written to %s but looked for in %s" % (show(wslot[r]) if r in wslot else "?", show(home[r]) if r in home else "?"),
                  c.m("prepareAfterRead", 0).loc)
        # ------------------------------------------------------------- buffers
        n = len(many + ones)
        vk = vector_slots(ck, c, s, vecs, wslot)
        for ctor in [f for f in prog.by_rec[c.storage_rec] if f.kind == "ctor" and not f.params]:
            base = THIS
            sub = lambda t: rebase_to(t, c.storage, base)
            for o in ck.outs(ctor, once=True):
                if o.kind != "ret":
                    continue
                k, usable = length(o, sub(s.refs))
                ck.ob("buffers", "new " + c.rec, k == n, "has %s slots for %d relations" % (k, n), ctor.loc)
                ck.ob("buffers", "new " + c.rec, usable, "a slot has no usable buffer", ctor.loc)
        cr = creators.get(c.rec)
        if cr is None:
            ck.ob("buffers", c.rec, False, "no function creates read buffers for it")
            continue
        create_buffers(ck, c, s, dt, cr, n, vecs, vk)


def mentions_only(a, r):
    """the test asks whether relation r of an object is set"""
    return a[0] == "nz" and any(x[0] == "f" and x[2] == r.field for x in subterms(a))


def contradictory(o):
    """the path needs an object to have two types at once"""
    seen = {}
    for a, v in o.tests.items():
        if v and a[0] == "nz" and a[1][0] == "dyncast":
            if seen.setdefault(a[1][2], a[1][1]) != a[1][1]:
                return True
    return False


def rebase_to(t, frm, to):
    if t == frm:
        return to
    if isinstance(t, tuple):
        return tuple(rebase_to(x, frm, to) for x in t)
    return t


def homes(ck, c, s, rels):
    """where the objects that are read look for a relation or vector member"""
    fn = c.m("prepareAfterRead", 0)
    out = {}
    for r in rels:
        inst = "%s of %s" % (r, c.rec)
        found, n = set(), 0
        for o in ck.outs(fn, once=True, assume=s.alive()):
            for e in effects(o):
                if not c.is_entry_add(e) or len(e.args) != 1:
                    continue
                n += 1
                found.add(o.load(F(deref(e.args[0]), r.field)))
        ok = len(found) == 1 and next(iter(found)) in s.ptrs
        ck.ob("home", inst, ok, "an object that was read finds its elements in %s" % [show(x) for x in found], fn.loc)
        if ok:
            out[r] = found.pop()
    for h in set(out.values()):
        rs = [r.name for r in out if out[r] == h]
        ck.ob("home", "%s of %s" % (", ".join(rs), c.rec), len(rs) == 1, "share the same container", fn.loc)
    return out


def target(o, v):
    """the object that a handle, interface or pointer that was made on the
    path refers to: a pointer term, NULL or None if it is not known"""
    for _ in range(12):
        if v is None:
            return None
        if v == NULL:
            return NULL
        if v[0] == "elem":
            return v
        if v[0] == "addr":
            v = v[1]
            continue
        if v[0] == "agg" and len(v[2]) == 1:
            v = v[2][0][1]
            continue
        if v[0] == "obj":
            fs = {e.loc[2]: e.args[0] for e in effects(o, local=True)
                  if e.kind == "wr" and e.loc[0] == "f" and e.loc[1] == v}
            ptr = [x for x in fs.values() if x == NULL or x[0] in ("elem", "addr", "obj", "agg")]
            if len(ptr) != 1:
                w = o.load(v)
                if w != v:
                    v = w
                    continue
                return None
            v = ptr[0]
            continue
        return None
    return None


def made(o, args):
    return None


def lookup(t):
    """(index, collection ID, provider call) of the pointer t to an element
    of the collection with an ID: .entries[<id>.index] of what get() found"""
    if t[0] != "elem":
        return None
    calls = [x for x in subterms(t[1]) if x[0] == "out" and x[1][0] == "call" and x[1][1].endswith("ICollectionProvider::get")]
    if not calls:
        return None
    call = calls[0][1]
    ids = [x for x in call[3] if isinstance(x, tuple)]
    return t[2], ids[0] if ids else None, call


def id_entry(s, t, name):
    """(slot, position) if t is the part name of an ID in the references"""
    if t is None or t[0] != "f" or t[2] != name or t[1][0] != "elem":
        return None
    k = slot(s, t[1][1])
    return None if k is None else (k, t[1][2])


def why_null(o, s):
    """positions (slot, index) of IDs that the path found to lead nowhere"""
    out = set()
    for a, v in o.tests.items():
        if a[0] == "eq" and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                e = id_entry(s, y, "index")
                if e and is_c(x) and x[1] in (-1, -2):
                    out.add(e)
        if a[0] in ("lt",) and v:
            e = id_entry(s, a[1], "index")
            if e and is_c(a[2]) and a[2][1] == 0:
                out.add(e)
        t = a[1] if a[0] == "nz" else a
        if not v and t[0] == "call" and t[1].endswith("ICollectionProvider::get"):
            for x in t[3]:
                e = id_entry(s, x, "collectionID") if isinstance(x, tuple) else None
                if e:
                    out.add(e)
        if not v and t[0] == "dyncast" and not any(
                w and (b[1] if b[0] == "nz" else b)[0] == "dyncast" and (b[1] if b[0] == "nz" else b)[2] == t[2]
                for b, w in o.tests.items()):
            for x in subterms(t):
                e = id_entry(s, x, "collectionID")
                if e:
                    out.add(e)
    return out


def check_target(ck, o, s, t, inst, w):
    """the position (slot, index) of the ID that the target t belongs to"""
    if t == NULL:
        return "null"
    lk = lookup(t) if t is not None else None
    if lk is None:
        ck.ob("target", inst, False, "the target is %s" % (show(t) if t is not None else "unknown"), w)
        return None
    ix, cid, call = lk
    a, b = id_entry(s, ix, "index"), id_entry(s, cid, "collectionID")
    ck.ob("target", inst, a is not None and a == b, "is element %s of collection %s" % (show(ix), show(cid)), w)
    ok = o.tests.get(call, o.tests.get(("nz", call)))
    ck.ob("target", inst, ok is True, "uses a collection that was not found", w)
    return a


def multi(ck, c, s, fn, outs, inst, dest, want, target_of, rule):
    n, loops = 0, set()
    for o in outs:
        w = "%s on path: %s" % (fn.loc, o.path()[-600:])
        per = {}
        for e in effects(o):
            if e.kind not in FILL or e.loc != dest:
                continue
            n += 1
            t = target_of(o, e)
            p = check_target(ck, o, s, t, inst, w)
            nulls = {x for x in why_null(o, s)}
            if p == "null":
                ps = [x for x in nulls if x[0] == want] or list(nulls)
                ck.ob("target", inst, bool(ps), "no target although the ID leads to one", w)
                p = ps[0] if ps else None
            elif p is not None:
                ck.ob("target", inst, p not in nulls, "a target although the ID leads to none", w)
            if p is None:
                continue
            ck.ob("slots" if rule != "subset" else rule, inst, want is None or p[0] == want,
                  "is written to slot %s but read from slot %s" % (want, p[0]), w)
            cont = deref(("elem", s.refs, C(p[0])))
            ck.ob(rule, inst, full_range(o, p[1], {cont}), "index %s does not run over all IDs" % show(p[1]), w)
            per[p] = per.get(p, 0) + 1
            if p[1][0] == "ind":
                loops.add((p[1][1], p[1]))
        for p, k in per.items():
            ck.ob(rule, inst, k == 1, "%d elements are made for one ID" % k, w)
    if not n:
        ck.ob(rule, inst, False, "is never read", fn.loc)
    for o in outs:
        if any(e.kind in FILL and e.loc == dest for e in effects(o)):
            continue
        for L, i in loops:
            casts = {v for a, v in o.tests.items() if (a[1] if a[0] == "nz" else a)[0] == "dyncast"}
            if ran(o, L, i) and casts != {False}:
                ck.ob(rule, inst, False, "no element is made for some IDs", "%s on path: %s" % (fn.loc, o.path()[-600:]))


def single(ck, c, s, fn, outs, inst, r, want):
    n, loops = 0, set()
    for o in outs:
        w = "%s on path: %s" % (fn.loc, o.path()[-600:])
        last = {}
        for e in effects(o):
            if e.kind in ("wr", "reset") and e.loc[0] == "f" and e.loc[2] == r.field and e.loc[1][0] == "deref" and \
                    e.loc[1][1][0] == "elem" and e.loc[1][1][1] == c.entries:
                last[e.loc] = e
        for loc, e in last.items():
            i = loc[1][1][2]
            n += 1
            v = o.load(loc)
            t = target(o, v)
            conts = {c.entries} | {deref(("elem", s.refs, C(k))) for k in [want] if k is not None}
            ck.ob("single", inst, full_range(o, i, conts), "index %s does not run over all objects" % show(i), w)
            if i[0] == "ind":
                loops.add((i[1], i))
            p = check_target(ck, o, s, t, inst, w)
            if p == "null":
                nulls = why_null(o, s)
                ck.ob("target", inst, (want, i) in nulls or (want is None and bool(nulls)),
                      "no target although the ID leads to one", w)
                ck.ob("slots", inst, want is None or not nulls or any(x[0] == want for x in nulls),
                      "is written to slot %s but read from slots %s" % (want, sorted(x[0] for x in nulls)), w)
                continue
            if p is None:
                continue
            ck.ob("slots", inst, want is None or p[0] == want, "is written to slot %s but read from slot %s" % (want, p[0]), w)
            ck.ob("single", inst, p[1] == i, "object %s gets the ID at position %s" % (show(i), show(p[1])), w)
    if not n:
        ck.ob("single", inst, False, "is never read", fn.loc)


def vector_slots(ck, c, s, vecs, wslot):
    """position of each vector member in the list of vector members of a
    collection that is written"""
    prog = ck._prog
    vk = {}
    if not vecs:
        return vk
    fn = c.m("getBuffers", 0)
    found = {r: set() for r in vecs}
    for o in ck.outs(fn, once=True):
        if c.sub(o) is not False:
            continue
        for e in effects(o):
            p = second(e.loc)
            if e.kind == "wr" and p is not None and p[0] == s.vecinfo and is_c(p[1]):
                for r in vecs:
                    if r in wslot and e.args[0] == ("addr", wslot[r]):
                        found[r].add(("written", p[1][1]))
    ctor = [f for f in prog.by_rec[c.storage_rec] if f.kind == "ctor" and not f.params][0]
    info = rebase_to(s.vecinfo, c.storage, THIS)
    for o in ck.outs(ctor, once=True):
        k = 0
        for e in effects(o):
            if e.kind in FILL and e.loc == info:
                v = pair_of(e.args)
                for r in vecs:
                    if r in wslot and v is not None and v[1] == ("addr", rebase_to(wslot[r], c.storage, THIS)):
                        found[r].add(("registered", k))
                        ck.ob("vecslots", "%s of %s" % (r, c.rec), v[0] == C("str:" + r.type), "has type %s" % show(v[0]), ctor.loc)
                k += 1
        ck.ob("vecslots", "new " + c.rec, k == len(vecs), "%d entries for %d vector members" % (k, len(vecs)), ctor.loc)
    for r in vecs:
        ks = {k for _, k in found[r]}
        ck.ob("vecslots", "%s of %s" % (r, c.rec), len(ks) == 1 and len(found[r]) == 2, "is in the entries %s" % sorted(found[r]), fn.loc)
        if ks:
            vk[r] = min(ks)
    ck.ob("vecslots", c.rec, sorted(vk.values()) == list(range(len(vecs))), "entries %s" % sorted(vk.values()), fn.loc)
    return vk


def pair_of(args):
    """(first, second) of what was added to a list of pairs"""
    if len(args) == 2:
        return args
    if len(args) == 1 and args[0][0] == "ctor" and len(args[0][2]) == 2:
        return args[0][2]
    if len(args) == 1 and args[0][0] == "agg" and len(args[0][2]) == 2:
        return tuple(x[1] for x in args[0][2])
    return None


def length(o, loc):
    """(number of elements, all of them are new buffers) of a list of buffers
    that was made on the path"""
    v = o.load(loc)
    n, fresh = 0, set()
    if v[0] == "ctor":
        ints = [x[1] for x in v[2] if is_c(x) and isinstance(x[1], int)]
        n = ints[0] if ints else None
    elif v[0] == "obj" and o.load(v)[0] == "ctor":
        ints = [x[1] for x in o.load(v)[2] if is_c(x) and isinstance(x[1], int)]
        n = ints[0] if ints else None
    targets = set()
    for e in effects(o, local=True):
        if e.loc == loc or (v[0] == "obj" and e.loc == v):
            if e.kind in FILL and n is not None:
                fresh.add(n)
                n += 1
                if len(e.args) == 1:
                    if e.args[0] in targets or e.args[0] == NULL:
                        return n, False
                    targets.add(e.args[0])
            elif e.kind == "resize" and e.args and is_c(e.args[0]):
                n = e.args[0][1]
        elif e.kind in ("wr", "reset") and e.loc[0] == "elem" and e.loc[1] in (loc, v) and e.args and e.args[0] != NULL:
            i = e.loc[2]
            if is_c(i):
                fresh.add(i[1])
            elif i[0] == "ind" and full_range(o, i, {loc, v}):
                fresh.update(range(n or 0))
    # a loop over the slots that was not entered fits only if there are none
    return n, n is not None and fresh >= set(range(n))


def creation_functions(ck):
    """{collection type: (function, lambda or function that creates it)}"""
    prog = ck._prog
    out = {}
    for fn in prog.funcs.values():
        if fn.rt != "podio::CollectionReadBuffers" or len(fn.params) != 1 or fn.params[0]["t"] != "bool" or fn.kind == "method":
            continue
        try:
            os_ = ck.outs(fn, once=True)
        except AnalysisError:
            continue
        for o in os_:
            if o.kind != "ret" or o.value is None:
                continue
            lam = o.load(F(o.value, "createCollection"))
            if lam[0] not in ("lam", "fn"):
                continue
            g = prog.funcs.get(lam[1])
            if g is None:
                continue
            for p in ck.outs(g, once=True):
                if p.kind == "ret" and p.value is not None and deref(p.value)[0] == "obj":
                    rec = deref(p.value)[2]
                    if out.setdefault(rec, (fn, g))[0].id != fn.id:
                        # instantiated in several translation units
                        pass
    return out


def create_buffers(ck, c, s, dt, cr, n, vecs, vk):
    prog = ck._prog
    fn, make = cr
    sub = par(fn, 0)
    for o in ck.outs(fn, once=True):
        if o.kind != "ret":
            continue
        is_sub = o.tests.get(sub, o.tests.get(("nz", sub)))
        v = o.value
        w = "%s on path: %s" % (fn.loc, o.path()[:300])
        refs, vec, data = (o.load(F(v, x)) for x in ("references", "vectorMembers", "data"))
        k, usable = length(o, deref(refs))
        inst = "buffers of %s%s" % (c.rec, "" if is_sub is None else " (subset)" if is_sub else " (normal)")
        for val in ([True, False] if is_sub is None else [is_sub]):
            ck.ob("buffers", inst, k == (1 if val else n), "%s slots for %s" % (k, "a subset" if val else "%d relations" % n), w)
            if val:
                ck.ob("buffers", inst, data == NULL, "a subset collection has data", w)
            else:
                ok = data[0] == "addr" and data[1][0] == "obj"
                ck.ob("buffers", inst, ok, "the data is %s" % show(data), w)
                if not ok:
                    continue
                want = elem_type(prog, c, s)
                ck.ob("buffers", inst, want is None or vec_elem(data[1][2]) == want, "the data is %s" % data[1][2], w)
        ran_loop = any(e[0] == "endloop" for e in o.events)
        ck.ob("buffers", inst, usable or (not ran_loop and k != 0 and not straight(o)), "a slot has no usable buffer", w)
        if is_sub is True:
            continue
        entries, j = {}, 0
        for e in effects(o, local=True):
            if e.kind in FILL and vec[0] == "addr" and e.loc == vec[1]:
                entries[j] = pair_of(e.args)
                j += 1
        if vecs:
            ck.ob("vecslots", inst, j == len(vecs), "%d entries for %d vector members" % (j, len(vecs)), w)
        for r in vecs:
            x = entries.get(vk.get(r))
            ok = x is not None and x[0] == C("str:" + r.type) and x[1][0] == "addr" and x[1][1][0] == "obj" and \
                vec_elem(x[1][1][2]) == norm_type(r.type)
            ck.ob("vecslots", "%s in %s" % (r, inst), ok, "the entry is %s" % ([show(y) for y in x] if x else None), w)
        lam = o.load(F(v, "deleteBuffers"))
        d = prog.funcs.get(lam[1]) if lam[0] in ("lam", "fn") else None
        if d is None:
            ck.ob("vecslots", inst, False, "no function releases the buffers", w)
            continue
        B = par(d, 0)
        for p in ck.outs(d, once=True):
            full = p.tests.get(("nz", F(B, "data")))
            dels = {e[1]: e[2] for e in p.events if e[0] == "delete"}
            w2 = "%s on path: %s" % (d.loc, p.path()[:300])
            if full is not True:
                continue
            for r in vecs:
                got = [t for a, t in dels.items() if second(a) == (deref(F(B, "vectorMembers")), C(vk.get(r)))]
                ck.ob("vecslots", "%s in %s" % (r, inst), len(got) == 1 and vec_elem(got[0]) == norm_type(r.type),
                      "is released as %s" % got, w2)
    # ------------------------------------------------------------------ adopt
    B, S = par(make, 0), par(make, 1)
    for o in ck.outs(make, once=True):
        if o.kind != "ret" or deref(o.value)[0] != "obj":
            continue
        obj = deref(o.value)
        at = lambda t: rebase_to(t, THIS, obj)
        w = "%s on path: %s" % (make.loc, o.path()[:300])
        sub = o.tests.get(S, o.tests.get(("nz", S)))
        ck.ob("adopt", c.rec, o.load(at(c.subset)) == S or o.load(at(c.subset)) == C(sub), "the kind of the collection is %s" %
              show(o.load(at(c.subset))), w)
        ck.ob("adopt", c.rec, o.load(at(s.refs)) == deref(F(B, "references")), "the references are %s" % show(o.load(at(s.refs))), w)
        if sub is False or sub is None:
            ck.ob("adopt", c.rec, o.load(at(s.data)) == F(B, "data"), "the data is %s" % show(o.load(at(s.data))), w)
            for r in vecs:
                h = ptr_of(ck, c, s, r)
                if h is None:
                    continue
                got = o.load(at(h))
                want = (deref(F(B, "vectorMembers")), C(vk.get(r)))
                ck.ob("vecslots", "%s of %s" % (r, c.rec), second(got) == want, "is read from %s, stored in entry %s" % (
                    show(got), vk.get(r)), w)


def second(t):
    """(list, index) of the pair that t is the second part of"""
    if t[0] == "get" and t[2] == 1 or t[0] == "f" and t[2] in ("second", "<1>"):
        if t[1][0] == "elem":
            return t[1][1], t[1][2]
    return None


def straight(o):
    return not any(e[0] == "loop" for e in o.events)


def ptr_of(ck, c, s, r):
    fn = c.m("prepareAfterRead", 0)
    for o in ck.outs(fn, once=True, assume=s.alive()):
        for e in effects(o):
            if c.is_entry_add(e) and len(e.args) == 1:
                v = o.load(F(deref(e.args[0]), r.field))
                if v in s.ptrs:
                    return v
    return None


def vec_elem(t):
    """the element type of a vector type (written with or without allocator)"""
    if not t.startswith("std::vector<"):
        return None
    t, depth = t[len("std::vector<"):], 0
    for i, ch in enumerate(t):
        if depth == 0 and ch in ",>":
            return norm_type(t[:i])
        depth += (ch == "<") - (ch == ">")
    return norm_type(t)


def norm_type(t):
    return t.strip().lstrip(":")


def elem_type(prog, c, s):
    for f in prog.recs[c.storage_rec]["fields"]:
        if s.data == F(c.storage, f["n"]):
            return vec_elem(f["t"][len("std::unique_ptr<"):])
    return None
