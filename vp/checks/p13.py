"""P13: preparing for writing captures every object exactly once"""
from ..io import *
from .p33 import prepared_flag


def run(ck):
    ck.rule("guard", "a prepared collection is left alone, and it only counts as prepared once all buffers are filled")
    ck.rule("fresh", "every buffer is empty when filling starts, also after an earlier attempt that failed half-way")
    ck.rule("data", "the data of every element is added exactly once, whole and in order")
    ck.rule("range", "the range of a relation of an object starts where the one of the previous object ended and has the "
                     "length of the relation of the object")
    ck.rule("targets", "for every element of a relation of every object the ID of exactly that target is added, in order")
    ck.rule("vectors", "every element of a vector member of every object is added exactly once, in order")
    ck.rule("single", "for every object the ID of the target of a one-to-one relation is added exactly once, or an ID "
                      "that refers to nothing if there is none")
    ck.rule("subset", "for a subset collection the IDs of all elements are added exactly once, in order, and nothing else")
    ck.rule("pure", "nothing but the write buffers changes")
    ck.rule("again", "a collection that is filled further after it was prepared has to be prepared again")
    ck.load("core", "cover")
    colls = all_colls(ck)
    body(ck, types_of(ck, colls))
    ck.need("guard", 3 * len(colls))
    ck.need("fresh", 3 * len(colls))
    ck.need("data", len(colls))
    ck.need("range", 10)
    ck.need("targets", 4)
    ck.need("vectors", 4)
    ck.need("single", 6)
    ck.need("subset", len(colls))
    ck.need("again", len(colls))


def body(ck, types):
    for c, dt in types:
        s = Storage(c)
        fn = c.m("prepareForWrite", 0)
        flag = prepared_flag(ck, c)
        outs = ck.outs(fn, solo=True, assume=s.alive())
        rels = relations(ck, c, dt)
        W = lambda o: "%s on path: %s" % (fn.loc, o.path()[-700:])
        if flag is None:
            raise AnalysisError("no prepared flag in " + c.rec)
        # -------------------------------------------------------------- guard
        work = []
        for o in outs:
            pre = o.tests.get(("nz", flag), o.tests.get(flag))
            es = effects(o)
            if pre is True:
                ck.ob("guard", c.rec, not es and o.kind == "ret", "changes %s although it is prepared" % es[:3], W(o))
                continue
            work.append(o)
            if o.kind == "throw":
                ck.ob("guard", c.rec, not any(e.loc == flag for e in es), "counts as prepared although it throws", W(o))
            else:
                w = [e for e in es if e.loc == flag]
                fills = [e for e in es if e.kind in FILL]
                ck.ob("guard", c.rec, bool(w) and w[-1].args[0] in (C(True), C(1)), "is not marked as prepared", W(o))
                ck.ob("guard", c.rec, not (w and fills) or fills[-1].pos < w[0].pos, "is marked before it is filled", W(o))
        if not any(o.tests.get(("nz", flag), o.tests.get(flag)) is True for o in outs):
            ck.ob("guard", c.rec, False, "does the work again for a prepared collection", fn.loc)
        normal = [o for o in work if c.sub(o) is False]
        subset = [o for o in work if c.sub(o) is True]
        if not normal or not subset:
            raise AnalysisError("%r does not distinguish subset collections" % fn)
        data = deref(s.data)
        equal = {c.entries, data} | {r.tmp for r in rels if r.tmp}
        # -------------------------------------------------------------- fresh
        isclear = lambda el, e: e.loc in (deref(el), el) and e.kind in ("clear", "wr", "reset", "assign")
        for kind, os_ in (("normal", normal), ("subset", subset)):
            hit, miss = every(os_, s.refs, isclear)
            ok = bool(hit) and not miss
            for o, e in hit:
                first = [x for x in effects(o) if x.kind in FILL and slot(s, x.loc) is not None]
                ok = ok and not (first and first[0].pos < e.pos)
            if not ok:
                # or one after the other
                ks = {slot(s, e.loc) for o in os_ for e in effects(o) if e.kind in FILL} - {None}
                ok = bool(ks) and all(before_any_fill(os_, deref(("elem", s.refs, C(k)))) for k in ks)
            ck.ob("fresh", "references of %s (%s)" % (c.rec, kind), ok, "old IDs stay in the buffer", fn.loc)
        targets = [data] + [deref(p) for p in s.ptrs]
        throws = [o for o in normal if o.kind == "throw"]
        for t in targets:
            fills = [o for o in normal if any(e.loc == t and e.kind in FILL + ("insert", "append_range") for e in effects(o))]
            if not fills:
                continue
            # a failed attempt can leave something behind in containers that are
            # filled before the failure
            left = throws or not isinstance(dt, type(None)) and dt.many
            ck.ob("fresh", "%s of %s" % (show(t), c.rec), before_any_fill(normal, t) or not left,
                  "keeps what an earlier attempt that threw an exception has added", fn.loc)
        # --------------------------------------------------------------- data
        fill(ck, "data", "data of " + c.rec, normal, data, fn,
             lambda o, v: entry_index(c, v, "data"), {1: equal - {data}})
        # --------------------------------------------------------- relations
        known = {}
        for r in rels:
            inst = "%s of %s" % (r.name, c.rec)
            if r.kind == "one":
                ks = set()
                for o in normal:
                    for e in effects(o):
                        if e.kind in FILL and slot(s, e.loc) is not None and e.args and mentions(e.args[0], r.field):
                            ks.add(slot(s, e.loc))
                if len(ks) != 1:
                    ck.ob("single", inst, False, "is written to %s" % (sorted(ks) or "no slot"), fn.loc)
                    continue
                k = ks.pop()
                known[k] = r
                dest = deref(("elem", s.refs, C(k)))
                fill(ck, "single", inst, normal, dest, fn, lambda o, v: single_index(c, o, v, r), {1: equal})
                continue
            if r.kind == "many":
                ks = set()
                for o in normal:
                    for e in effects(o):
                        if e.kind in FILL and slot(s, e.loc) is not None and e.args and element_of(c, r, handle_of_id(e.args[0])):
                            ks.add(slot(s, e.loc))
                if len(ks) != 1:
                    ck.ob("targets", inst, False, "is written to %s" % (sorted(ks) or "no slot"), fn.loc)
                    continue
                k = ks.pop()
                known[k] = r
                dest = deref(("elem", s.refs, C(k)))
                fill(ck, "targets", inst, normal, dest, fn,
                     lambda o, v: element_of(c, r, handle_of_id(v)), {2: equal})
            else:
                dests = set()
                for o in normal:
                    for e in effects(o):
                        if e.loc[0] == "deref" and e.loc[1] in s.ptrs and e.args:
                            for a in e.args:
                                if any(element_of(c, r, x) or own_container(c, r, x) for x in subterms(a)):
                                    dests.add(e.loc)
                if len(dests) != 1:
                    ck.ob("vectors", inst, False, "is written to %s" % [show(x) for x in dests], fn.loc)
                    continue
                fill(ck, "vectors", inst, normal, dests.pop(), fn, lambda o, v: element_of(c, r, v), {2: equal})
            ranges(ck, c, s, r, normal, data, equal, fn, inst)
        # -------------------------------------------------------------- subset
        dest = None
        for o in subset:
            for e in effects(o):
                if e.kind in FILL:
                    ck.ob("subset", c.rec, slot(s, e.loc) == 0, "writes to %s" % show(e.loc), W(o))
        fill(ck, "subset", c.rec + " as subset", subset, deref(("elem", s.refs, C(0))), fn,
             lambda o, v: entry_index(c, v, c.idf), {1: {c.entries}})
        # ---------------------------------------------------------------- pure
        allowed = {s.refs, flag, s.data} | set(s.ptrs)
        for o in work:
            bad = [e for e in effects(o) if not any(has_prefix(e.loc, a) or (e.loc[0] == "deref" and has_prefix(e.loc[1], a)) or
                                                    deref_prefix(e.loc, a) for a in allowed)]
            bad = [e for e in bad if e.kind not in ("release",)]
            moved = [e for e in o.events if e[0] == "moved" and not is_local(e[1])]
            ck.ob("pure", c.rec, not bad and not moved, "changes %s" % (bad[:2] or [show(m[1]) for m in moved]), W(o))
        # --------------------------------------------------------------- again
        for g in c.ms("create", 0) + c.ms("push_back", 1):
            for o in ck.outs(g, once=True):
                if o.kind != "ret" or not any(c.is_entry_add(e) for e in effects(o)):
                    continue
                kind = "subset" if c.sub(o) else "normal"
                ck.ob("again", "filling after preparing", o.load(flag) in (C(False), C(0)),
                      "what is added after preparing is not written", g.loc)


def deref_prefix(loc, a):
    t = loc
    while isinstance(t, tuple) and t and t[0] in ("f", "elem", "deref"):
        if t == a:
            return True
        t = t[1]
    return t == a


def mentions(t, field):
    return any(x[0] == "f" and x[2] == field for x in subterms(t))


def before_any_fill(outs, loc):
    """loc is emptied before anything is added to it on every path"""
    fills = 0
    for o in outs:
        es = [e for e in effects(o) if e.loc == loc or (loc[0] == "deref" and e.loc == loc[1])]
        if not es or not any(e.kind in FILL + ("insert", "append_range") for e in es):
            continue
        fills += 1
        if es[0].kind not in ("clear", "wr", "reset", "assign") and not (es[0].kind == "resize" and es[0].args[0] == C(0)):
            return False
    return fills > 0


def entry_index(c, v, field):
    """(i,) if v is the member field of entry i"""
    if v[0] == "f" and v[2] == field and v[1][0] == "deref":
        x = v[1][1]
        if x[0] == "elem" and x[1] == c.entries:
            return (x[2],)
    return None


def own_container(c, r, t):
    """i if t is the container of relation r of entry i"""
    if t[0] != "deref":
        return None
    t = t[1]
    if t[0] == "elem" and r.tmp is not None and t[1] == r.tmp:
        return t[2]
    if t[0] == "f" and t[2] == r.field and t[1][0] == "deref" and t[1][1][0] == "elem" and t[1][1][1] == c.entries:
        return t[1][1][2]
    return None


def element_of(c, r, t):
    """(i, j) if t is element j of relation r of entry i"""
    if t is None or t[0] != "elem":
        return None
    i = own_container(c, r, t[1])
    return None if i is None else (i, t[2], t[1])


def single_index(c, o, v, r):
    """(i,) if v is the ID of the target of relation r of entry i, or none"""
    h = handle_of_id(v)
    if h is not None and h[0] == "deref" and h[1][0] == "f" and h[1][2] == r.field:
        x = h[1][1]
        if x[0] == "deref" and x[1][0] == "elem" and x[1][1] == c.entries:
            return (x[1][2],)
    if null_id(v):
        # there is no target: no handle, or one without an object
        for a, val in o.tests.items():
            if a[0] == "nz" and val is False and mentions(a[1], r.field):
                for x in subterms(a[1]):
                    if x[0] == "elem" and x[1] == c.entries:
                        return (x[2],)
    return None


def fill(ck, rule, inst, outs, dest, fn, index, dims):
    """every push to dest adds one element with index(o, value); they are
    added exactly once for all values of the indices"""
    n = 0
    loops = set()
    for o in outs:
        w = "%s on path: %s" % (fn.loc, o.path()[-500:])
        seen = {}
        for e in effects(o):
            if e.kind in ("insert", "append_range") and e.loc == dest:
                src = [own for a in e.args for x in subterms(a) for own in [x] if x[0] == "deref"]
                cont = whole_source(e, dest)
                if cont is None:
                    ck.ob(rule, inst, False, "adds %s" % [show(a) for a in e.args], w)
                    continue
                # like a loop over that container
                ix = index(o, ("elem", cont, ("ind", None, C(0), 1)))
                if ix is None:
                    ck.ob(rule, inst, False, "adds %s" % show(cont), w)
                    continue
                n += 1
                i = ix[0]
                ok = full_range(o, i, dims[2])
                ck.ob(rule, inst, ok, "index %s does not run over all elements" % show(i), w)
                if i[0] == "ind":
                    loops.add((i[1], i))
                seen[i] = seen.get(i, 0) + 1
                continue
            if e.kind not in FILL or e.loc != dest:
                continue
            v = e.args[0] if len(e.args) == 1 else None
            ix = index(o, v) if v is not None else None
            if ix is None:
                ck.ob(rule, inst, False, "adds %s" % [show(a) for a in e.args], w)
                continue
            n += 1
            for k, i in enumerate(ix[:2]):
                conts = dims.get(len(ix[:2]), set()) if k == 0 else {ix[2]}
                if o.kind == "throw" and i[0] == "ind" and i[1] not in loops_run(o):
                    continue
                ok = full_range(o, i, conts)
                ck.ob(rule, inst, ok, "index %s does not run over all elements" % show(i), w)
                if i[0] == "ind" and k == len(ix[:2]) - 1:
                    loops.add((i[1], i))
            seen[ix[:2]] = seen.get(ix[:2], 0) + 1
        for ix, k in seen.items():
            ck.ob(rule, inst, k == 1, "added %d times" % k, w)
    if not n:
        ck.ob(rule, inst, False, "is never added", fn.loc)
    for o in outs:
        if o.kind != "ret" or any(e.loc == dest and e.kind in FILL + ("insert", "append_range") for e in effects(o)):
            continue
        for L, i in loops:
            if ran(o, L, i):
                ck.ob(rule, inst, False, "is not added for some elements",
                      "%s on path: %s" % (fn.loc, o.path()[-500:]))


def whole_source(e, dest):
    """the container that an insert at the end of dest takes everything from"""
    its = [a for a in e.args if a[0] == "it"]
    if e.kind == "append_range" and len(e.args) == 1:
        return e.args[0]
    if len(its) == 3 and its[0][1] == dest and its[0][2][0] == "size" and its[1][1] == its[2][1] and \
            its[1][2] == C(0) and its[2][2][0] == "size" and its[2][2][1] == its[1][1]:
        return its[1][1]
    return None


def ranges(ck, c, s, r, outs, data, equal, fn, inst):
    """begin and end of relation r in the data of every element"""
    B, E = r.name + "_begin", r.name + "_end"
    n = 0
    for o in outs:
        es = effects(o, local=True)
        for e in es:
            if e.kind != "wr" or e.loc[0] != "f" or e.loc[2] not in (B, E) or e.loc[1][0] != "elem" or e.loc[1][1] != data:
                continue
            i = e.loc[1][2]
            w = "%s on path: %s" % (fn.loc, o.path()[-500:])
            if i[0] != "ind":
                ck.ob("range", inst, False, "index %s" % show(i), w)
                continue
            L = i[1]
            if L not in loops_run(o):
                continue
            n += 1
            d = ("elem", data, i)
            ck.ob("range", inst, full_range(o, i, equal), "index %s does not run over all elements" % show(i), w)
            lens = [F(d, E), ("sub", F(d, E), F(d, B)), F(deref(("elem", c.entries, i)), "data", E),
                    ("size", deref(F(deref(("elem", c.entries, i)), r.field)))]
            if r.tmp:
                lens.append(("size", deref(("elem", r.tmp, i))))
            b, en = o.load(F(d, B)), o.load(F(d, E))
            nb = norm(b)
            # the running position
            v = None
            if len(nb[0]) == 1 and nb[1] == 0:
                v = nb[0][0]
            run_ok = False
            if v is not None and v[0] == "hav" and v[1] == L:
                init = [x[2] for x in o.events if x[0] == "havoc" and x[1] == v]
                ck.ob("range", inst, bool(init) and init[0] == C(0), "the first range starts at %s" % (show(init[0]) if init else "?"), w)
                wr = [x for x in es if x.kind == "wr" and x.loc[0] == "var" and x.loc[2].split("@")[0] == v[2]]
                nxt = wr[-1].args[0] if wr else v
                run_ok = True
                ck.ob("range", inst, norm(nxt) == norm(en), "the next range starts at %s, this one ends at %s" % (
                    show(nxt), show(en)), w)
            elif v is not None and v[0] == "size":
                run_ok = True     # as much as was added before
            ck.ob("range", inst, run_ok, "starts at %s" % show(b), w)
            ck.ob("range", inst, any(norm(en) == norm(("add", b, x)) for x in lens),
                  "ends at %s" % show(en), w)
    if not n:
        ck.ob("range", inst, False, "ranges are not set", fn.loc)


def norm(t):
    """sum as (sorted terms, constant)"""
    pos, k = [], 0
    work = [(t, 1)]
    while work:
        x, sg = work.pop()
        if is_c(x) and isinstance(x[1], int):
            k += sg * x[1]
        elif x[0] == "add" and len(x) == 3:
            work += [(x[1], sg), (x[2], sg)]
        elif x[0] == "sub" and len(x) == 3:
            work += [(x[1], sg), (x[2], -sg)]
        else:
            pos.append(x if sg > 0 else ("neg", x))
    out = sorted(pos, key=repr)
    for x in list(out):
        if ("neg", x) in out and x in out:
            out.remove(x)
            out.remove(("neg", x))
    return out, k
