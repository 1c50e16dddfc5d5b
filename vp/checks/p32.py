"""P32: an operation that is rejected changes nothing"""
from ..io import *
from .p33 import prepared_flag

TRY = ("try_emplace", "emplace", "insert")
CONSTRUCT = ("ctor", "copyctor", "movector", "dtor")


def run(ck):
    ck.rule("rejected", "whatever is thrown by an operation is thrown before anything was changed that outlives the call")
    ck.rule("bounds", "nothing was changed before an access to an element that may be refused for the position that was passed")
    ck.rule("partly", "an operation on many elements that may be refused for one of them does not change the ones before")
    ck.rule("prepare", "preparing for writing that fails only changed the write buffers, and the collection does not count as prepared")
    prog = ck.load("core", "cover")
    ck.assume("static functions that make a collection work on no existing one; objects that were given to it belong to it, also if "
              "it is given up because a later object is refused")
    ck.assume("failures to convert or create a collection from the data of a file are not operations whose preconditions do not hold; a "
              "request for it must not leave anything half-made in the frame")
    stores = {}
    for c in all_colls(ck):
        stores[c.rec] = (c, Storage(c))
    inner = {c.storage_rec for c, s in stores.values() if c.storage_rec != c.rec}
    n = t = 0
    later = []
    refuse = set()
    for q, fn in sorted(prog.funcs.items()):
        if not mine(fn) or fn.rec in inner:
            continue
        try:
            outs = ck.outs(fn, solo=True, assume=stores[fn.rec][1].alive(True) if fn.rec in stores else ())
        except AnalysisError:
            if fn.name in ("clear", "print", "operator<<", "to_json"):
                continue
            raise
        bad = [o for o in outs if o.kind == "throw"]
        n += 1
        inst = "%s%s" % (fn.rec + "::" if fn.rec else "", fn.name)
        for o in outs:
            user_at(ck, fn, o, inst)
        ck.ob("bounds", inst, True, "", fn.loc)
        later.append((fn, inst, outs))
        if not bad:
            continue
        refuse.add(fn.name)
        t += 1
        prep = fn.name == "prepareForWrite" and fn.rec in stores
        for o in bad:
            w = "%s on path: %s" % (fn.loc, o.path())
            ef = real(o)
            if prep:
                c, s = stores[fn.rec]
                bufs = [deref(p) for p in [s.data] + s.ptrs] + [s.refs]
                flag = prepared_flag(ck, c)
                ef = [e for e in ef if not any(has_prefix(e.loc, b) for b in bufs)]
                ck.ob("prepare", inst, not ef, "changes more than the buffers before it fails: %s" % ef, w)
                ck.ob("prepare", inst, flag is None or o.load(flag) not in (C(True), C(1)), "counts as prepared although it failed", w)
                continue
            own = [("par", p["v"]) for p, ty in zip(fn.params, fn.pt) if "std::unique_ptr<" in ty and (not ty.endswith("&") or ty.endswith("&&"))]
            ef = [e for e in ef if not unpacking(fn, e) and not any(has_prefix(e.loc, g) for g in own)]
            if any(refused(o, e) for e in effects(o) if e.kind in TRY) or name_known(o):
                # the names in the map are in the ID table (P05), so this registers nothing new
                ef = [e for e in ef if not (fn.rec or "").startswith("podio::Frame::") or not in_id_table(ck._prog, e.loc)]
            ck.ob("rejected", inst, not ef, "is refused after it has already changed something: %s" % ef[:3], w)
            partly(ck, fn, outs, o, inst, w)
    for fn, inst, outs in later:
        given = [("par", p["v"]) for p, ty in zip(fn.params, fn.pt) if not ty.endswith("&") or ty.endswith("&&")]
        for o in outs:
            handed_on(ck, fn, o, inst, refuse, given)
    ck.need("rejected", 100)
    ck.need("prepare", 4)


def mine(fn):
    if fn.kind in CONSTRUCT or fn.acc not in (None, "public", "none", ""):
        return False
    if fn.loc is None or not (fn.loc.startswith("gen:") or fn.loc.startswith("repo:")):
        return False
    if "lambda at" in (fn.rec or "") or "anonymous" in (fn.q or ""):
        return False
    return bool(fn.rec) and not fn.static


def real(o):
    """the changes a path made that are still there at its end"""
    out = []
    for e in effects(o):
        if e.kind == "delete" and is_local(e.loc):
            continue
        if e.kind in TRY and refused(o, e):
            continue
        if e.kind == "wr" and o.load(e.loc) == e.loc:
            continue     # has its old value again
        out.append(e)
    return out


def refused(o, e):
    """is it known that the key was there already"""
    for a, v in o.tests.items():
        a = a[1] if a[0] == "nz" else a
        if v is False and a[0] == "inserted" and a[1] == e.loc:
            return True
        if v is True and a[0] == "has" and a[1] == e.loc and e.args and a[2] == e.args[0]:
            return True
    return False


def name_known(o):
    return any(v is True and a[:1] == ("has",) for a, v in o.tests.items())


def in_id_table(prog, loc):
    while loc[0] in ("f", "deref", "elem", "get"):
        if loc[0] == "f" and any(loc == F(THIS, f["n"]) and "CollectionIDTable" in f["t"]
                                 for r, d in prog.recs.items() if r.startswith("podio::Frame::FrameModel<") for f in d["fields"]):
            return True
        loc = loc[1]
    return False


def unpacking(fn, e):
    """a request hands out raw data or works on a collection nobody knows yet"""
    return fn.const and e.kind in ("call:getCollectionBuffers", "call:prepareAfterRead", "call:setID")


def user_at(ck, fn, o, inst):
    """checked accesses at a position that the caller gives"""
    ps = {("par", p["v"]) for p in fn.params}
    for i, e in enumerate(o.events):
        if e[0] != "at" or not any(t in ps for x in e[1:] if isinstance(x, tuple) for t in subterms(x)):
            continue
        before = [x for x in effects(o) if x.pos < i and not unpacking(fn, x)]
        ck.ob("bounds", inst, not before, "was changed before the position was checked: %s" % before[:3], "%s on path: %s" % (fn.loc, o.path()))


def handed_on(ck, fn, o, inst, refuse, given):
    """calls of virtual functions that may refuse"""
    for i, e in enumerate(o.events):
        if e[0] == "call" and e[1].startswith("podio::") and short_call(e[1]) in refuse and e[2] is not None:
            before = [x for x in real(o) if x.pos < i and not unpacking(fn, x) and not any(has_prefix(x.loc, g) for g in given)]
            ck.ob("rejected", inst, not before, "something is changed before %s, which may refuse: %s" % (e[1], before[:3]),
                  "%s on path: %s" % (fn.loc, o.path()))


def partly(ck, fn, outs, o, inst, w):
    opened = []
    ck.ob("partly", inst, True, "", w)
    for e in o.events:
        if e[0] == "loop":
            opened.append(e[1])
        elif e[0] == "endloop" and e[1] in opened:
            opened.remove(e[1])
    for L in opened:
        for r in outs:
            lo = [i for i, e in enumerate(r.events) if e[0] == "loop" and e[1] == L]
            hi = [i for i, e in enumerate(r.events) if e[0] == "endloop" and e[1] == L]
            if not lo or not hi:
                continue
            ef = [e for e in real(r) if lo[0] < e.pos < hi[-1] and not unpacking(fn, e)]
            ck.ob("partly", inst, not ef, "has changed something for the elements before the one that is refused: %s" % ef[:3], w)
