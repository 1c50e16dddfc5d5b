"""P07: subset collections only reference, normal collections only own"""
from ..edm import *

SAMPLES = (-1, 0, 1, 7)   # untracked and tracked positions


def env_of(c, ptr, idx):
    return {F(c.objid(ptr), "index"): idx, F(c.objid(ptr), "collectionID"): (-1 if idx < 0 else 17)}


def added(c, o):
    return [e for e in effects(o) if has_prefix(e.loc, c.entries)]


def outer(o, c):
    """changes of the collection a path makes"""
    return [e for e in effects(o) if has_prefix(e.loc, THIS)]


def new_obj(c, v):
    v = v[1] if v[0] == "addr" else v
    return v[0] in ("obj", "new") and c.obj.split("::")[-1] in show(v)


def run(ck):
    ck.rule("create", "objects can only be created in a collection that is no subset; then exactly one new object is "
                      "added, otherwise an exception is thrown and nothing changes")
    ck.rule("push-own", "pushing a mutable handle to a normal collection adds exactly the object of the handle if that is "
                        "untracked, and throws without changing anything if it is tracked")
    ck.rule("push-ref", "pushing to a subset collection adds exactly the object of the handle if that is tracked, and "
                        "throws without changing anything if it is not")
    ck.rule("push-const", "an immutable handle is never added to a normal collection")
    ck.rule("character", "whether a collection is a subset only changes while it is empty, and is then what was asked for")
    ck.rule("who", "no other operation changes whether the collection is a subset, or adds elements")
    ck.rule("from", "a collection made from a range of immutable handles is a subset, one from mutable handles is not, "
                    "and every element of the range is pushed once")
    prog = ck.load("core", "cover")
    colls = all_colls(ck)
    for c in colls:
        # ------------------------------------------------------------ create
        for fn in c.ms("create"):
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path())
                inst = "%s::create/%d" % (c.rec, len(fn.params))
                sub = c.sub(o)
                if o.kind == "throw":
                    ch = outer(o, c)
                    ck.ob("create", inst, sub is True and not ch, "throws in a normal collection" if sub is not True
                          else "changes %s although it throws" % ch, w)
                    continue
                ck.ob("create", inst, sub is False, "creates an object in a subset collection", w)
                add = added(c, o)
                ok = len(add) == 1 and c.is_entry_add(add[0]) and new_obj(c, add[0].args[0])
                ck.ob("create", inst, ok, "does not add exactly one new object: %s" % add, w)
        # --------------------------------------------------------- push_back
        pushes = c.ms("push_back", 1)
        if len(pushes) != 2:
            raise AnalysisError("%s has %d push_back functions" % (c.rec, len(pushes)))
        for fn in pushes:
            pt = fn.params[0]["t"]
            mut = obj_of_handle(prog, pt)
            P = F(par(fn, 0), c.hfield)
            env = {i: env_of(c, P, i) for i in SAMPLES}
            inst = "%s::push_back(%s)" % (c.rec, mut[0])
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path())
                sub = c.sub(o)
                poss = [i for i in SAMPLES if possible(o, env[i])]
                if not poss:
                    continue
                if o.kind == "throw":
                    ch = outer(o, c)
                    for r, when in (("push-own", False), ("push-ref", True)):
                        if sub is not None and sub != when:
                            continue
                        rr = r if mut[1] or when else "push-const"
                        ck.ob(rr, inst, not ch, "changes %s although it throws" % ch, w)
                        wrong = [i for i in poss if (i >= 0 if when else (mut[1] and i < 0))]
                        ck.ob(rr, inst, not wrong, "rejects an object with index %s in a %s collection" % (
                            wrong, "subset" if when else "normal"), w)
                    continue
                add = added(c, o)
                ok = len(add) == 1 and c.is_entry_add(add[0]) and len(add[0].args) == 1 and add[0].args[0] == P
                if sub is not True:
                    if not mut[1]:
                        ck.ob("push-const", inst, False, "adds an immutable handle to a normal collection", w)
                    else:
                        ck.ob("push-own", inst, ok, "does not add exactly the given object once: %s" % add, w)
                        wrong = [i for i in poss if i >= 0]
                        ck.ob("push-own", inst, not wrong, "takes over an object that is already tracked (index %s)" % wrong, w)
                if sub is not False:
                    ck.ob("push-ref", inst, ok, "does not add exactly the given object once: %s" % add, w)
                    wrong = [i for i in poss if i < 0]
                    ck.ob("push-ref", inst, not wrong, "references an untracked object (index %s)" % wrong, w)
        # ---------------------------------------------------------- character
        fn = c.m("setSubsetCollection", 1)
        want = par(fn, 0)
        size = ("size", c.entries)
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path())
            for cur in (0, 1):
                for p in (0, 1):
                    for n in (0, 1, 5):
                        env = {c.subset: cur, want: p, size: n}
                        if not possible(o, env):
                            continue
                        inst = "%s::setSubsetCollection is %d to %d with %d elements" % (c.rec, cur, p, n)
                        if o.kind == "throw":
                            ck.ob("character", inst, cur != p and n > 0, "rejected", w)
                            ck.ob("character", inst, not outer(o, c), "changes %s although it throws" % outer(o, c), w)
                            continue
                        wr = [e for e in effects(o) if e.loc == c.subset]
                        val = p if not wr and cur == p else cur
                        if wr:
                            v = wr[-1].args[0]
                            val = holds(v, env) if not is_c(v) else v[1]
                        ck.ob("character", inst, val is not None and int(val) == p, "is %s afterwards" % val, w)
                        ck.ob("character", inst, cur == p or n == 0, "changes its character with elements in it", w)
        # ---------------------------------------------------------------- who
        for fn in c.fns:
            if fn.kind != "method" or fn.static or fn.const or fn.acc == "private":
                continue
            if fn.name in ("create", "push_back", "setSubsetCollection", "operator=", "from"):
                continue
            # what the storage does is looked at by other checks
            for o in ck.outs(fn, once=True, opaque=lambda f: f.get("rec") == c.storage_rec and f.get("rec") != c.rec, okey="who" + c.rec):
                bad = [e for e in effects(o) if e.loc == c.subset]
                if fn.name not in ("prepareAfterRead", "setReferences"):
                    bad += [e for e in added(c, o) if e.kind not in ("clear", "erase", "pop_back")]
                    bad = [e for e in bad if not (e.kind == "wr" and e.loc != c.subset)]
                ck.ob("who", "%s::%s" % (c.rec, fn.name), not bad, "changes %s" % bad, fn.loc)
        # --------------------------------------------------------------- from
        for fn in c.ms("from", 1):
            mutable = "Mutable" in (fn.targs or [""])[0] or ", true>" in (fn.targs or [""])[0]
            for o in ck.outs(fn, once=True, opaque=lambda f: f.get("rec") == c.rec, okey="from" + c.rec):
                w = "%s on path: %s" % (fn.loc, o.path())
                calls = [(e[1].split("::")[-1], e[2], e[3], i) for i, e in enumerate(o.events) if e[0] == "call"]
                sub = [x for x in calls if x[0] == "setSubsetCollection"]
                push = [x for x in calls if x[0] == "push_back"]
                inst = "%s::from(%s)" % (c.rec, (fn.targs or [""])[0][:60])
                want = [x for x in sub if x[2] and x[2][0] != C(True)]
                issub = bool(sub) and not want
                ck.ob("from", inst, issub == (not mutable), "the result is %sa subset" % ("" if issub else "not "), w)
                loop = any(e[0] == "loop" for e in o.events) and any(e[0] == "endloop" for e in o.events)
                n = len(push)
                ck.ob("from", inst, n == 1 if loop else n == 0, "pushes %d times per element" % n, w)
                if push and sub:
                    ck.ob("from", inst, sub[0][3] < push[0][3], "pushes before it is a subset", w)
    ck.need("create", 2 * len(colls))
    ck.need("push-own", 3 * len(colls))
    ck.need("push-ref", 4 * len(colls))
    ck.need("character", 8 * len(colls))
    ck.need("from", 6)


def obj_of_handle(prog, t):
    """(name, is mutable) of a handle parameter"""
    t = t.replace("const ", "").replace("&", "").strip()
    bare = t.split("::")[-1] if "<" not in t else t
    return t, ("Mutable" in bare if "<" not in t else ", true>" in t)
