"""P33: a cleared collection is like a new one"""
from ..edm import *


def run(ck):
    ck.rule("empty", "clearing removes all elements")
    ck.rule("release", "clearing a normal collection deletes every object in it before forgetting about it, clearing a "
                       "subset collection deletes none")
    ck.rule("contents", "clearing empties every container of the collection that later writing or filling relies on")
    ck.rule("stale", "whatever a write buffer contains from earlier is removed before it is filled again")
    ck.rule("prepared", "after clearing the collection has to be prepared for writing again")
    ck.rule("keep", "clearing neither changes the ID of the collection nor whether it is a subset")
    ck.rule("values", "clearing a user data collection removes all values")
    prog = ck.load("core", "cover")
    colls = all_colls(ck)
    for c in colls:
        s = Storage(c)
        fn = c.m("clear", 0)
        prep = prepared_flag(ck, c)
        pw = ck.outs(c.m("prepareForWrite", 0), solo=True)
        for alive in (True, False):
            outs = ck.outs(fn, solo=True, assume=s.alive(alive))
            rets = [o for o in outs if o.kind == "ret"]
            if not rets:
                raise AnalysisError("%r never returns" % fn)
            normal = [o for o in rets if c.sub(o) is not True]
            subset = [o for o in rets if c.sub(o) is not False]
            how = "" if alive else " (without buffers)"
            for o in rets:
                w = "%s on path: %s" % (fn.loc, o.path())
                ck.ob("empty", c.rec + how, cleared(o, c.entries), "elements are not removed", w)
                if prep is not None:
                    ck.ob("prepared", c.rec + how, o.load(prep) in (C(False), C(0)), "still counts as prepared", w)
                bad = [e for e in effects(o) if e.loc in (c.id, c.subset)]
                ck.ob("keep", c.rec + how, not bad, "changes %s" % bad, w)
            # deletion
            dels, miss = every([o for o in normal if c.sub(o) is False], c.entries,
                               lambda el, e: e.kind == "delete" and e.loc in (el, deref(el)))
            ok = bool(dels) and not miss
            for o, e in dels:
                first = [x for x in effects(o) if x.loc == c.entries and x.kind != "delete"]
                if first and first[0].pos < e.pos:
                    ok = False
            ck.ob("release", c.rec + how, ok, "objects are not deleted before they are forgotten", fn.loc)
            bad = [e for o in subset for e in effects(o) if e.kind == "delete" and c.sub(o) is True]
            ck.ob("release", c.rec + " as subset" + how, not bad, "deletes objects it does not own", fn.loc)
            if not alive:
                continue
            # ---------------------------------------------------- contents
            for o in normal:
                w = "%s on path: %s" % (fn.loc, o.path())
                for t in s.tmps:
                    ck.ob("contents", "%s of %s" % (show(t), c.rec), cleared(o, t), "not emptied", w)
                for t in s.ptrs:
                    # only what is used to fill or to read
                    ck.ob("contents", "%s of %s" % (show(t), c.rec),
                          cleared(o, deref(t)) or before_fill(pw, deref(t)), "not emptied", w)
                ck.ob("stale", "%s of %s" % (show(s.data), c.rec),
                      cleared(o, deref(s.data)) or before_fill(pw, deref(s.data)), "keeps old data", w)
            for kind, os_ in (("normal", [o for o in rets if c.sub(o) is False]), ("subset", [o for o in rets if c.sub(o) is True])):
                pwk = [o for o in pw if c.sub(o) is not (kind == "normal")]
                isclear = lambda el, e: e.loc in (deref(el), el) and e.kind in ("clear", "wr", "reset", "assign")
                h, m = every(os_, s.refs, isclear)
                ok = (bool(h) and not m) or any(cleared(o, s.refs) for o in os_)
                h, m = every(pwk, s.refs, isclear)
                ok = ok or (bool(h) and not m)
                ck.ob("stale", "%s of %s (%s)" % (show(s.refs), c.rec, kind), ok, "keeps old IDs", fn.loc)
    # -------------------------------------------------------- user data
    n = 0
    for r in sorted(prog.recs):
        if not r.startswith("podio::UserDataCollection<") or not prog.by_rec.get(r):
            continue
        if not methods(prog, r, "clear", 0):
            continue
        sz = field_of(ck, method(prog, r, "size", 0))
        fn = method(prog, r, "clear", 0)
        for o in ck.outs(fn, once=True):
            n += 1
            ck.ob("values", r, sz[0] == "size" and cleared(o, sz[1]), "values are not removed", fn.loc)
            bad = [e for e in effects(o) if e.loc == field_of(ck, method(prog, r, "getID", 0))]
            ck.ob("values", r, not bad, "changes the ID", fn.loc)
    ck.need("empty", 3 * len(colls))
    ck.need("contents", 10)
    ck.need("values", 4)


def before_fill(outs, loc):
    """prepareForWrite empties loc itself before adding to it"""
    fills = [o for o in outs if any(e.loc == loc and e.kind in ("push_back", "emplace_back", "insert", "append_range")
                                    for e in effects(o))]
    if not fills:
        return False
    for o in fills:
        es = [e for e in effects(o) if e.loc == loc or (loc[0] == "deref" and e.loc == loc[1])]
        if es[0].kind not in ("clear", "wr", "reset", "assign", "resize"):
            return False
    return True


def prepared_flag(ck, c):
    """the member that prepareForWrite sets to remember that it was done"""
    fn = c.m("prepareForWrite", 0)
    cand = set()
    for o in ck.outs(fn, solo=True):
        if o.kind != "ret":
            continue
        for e in effects(o):
            if e.kind == "wr" and e.args[0] in (C(True), C(1)) and e.loc[0] == "f" and e.loc[1] in (THIS, c.storage):
                cand.add(e.loc)
    if len(cand) > 1:
        raise AnalysisError("no unique prepared flag in " + c.rec)
    return cand.pop() if cand else None
