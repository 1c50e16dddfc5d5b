"""How collections exchange data with their write and read buffers"""
from .edm import *

FILL = ("push_back", "emplace_back")


class Rel:
    """A relation or a vector member of a type; kind is many, one or vec"""

    def __init__(self, kind, name, field, type_):
        self.kind, self.name, self.field, self.type = kind, name, field, type_
        self.tmp = None    # where a collection keeps the containers of its objects

    def __repr__(self):
        return self.name


def obj_member(ck, handle, getter):
    """the member of the object that a getter reads from"""
    prog = ck._prog
    hf = obj_field(prog, handle)
    ob = deref(F(THIS, hf))
    fields = {f["n"]: f["t"] for f in prog.recs[pointee(prog, handle)]["fields"]}
    found = set()
    for fn in methods(prog, handle, getter):
        for o in ck.outs(fn, once=True):
            terms = list(o.tests) + [o.value] + [x for e in o.events for x in e if isinstance(x, tuple)]
            for t in terms:
                if not isinstance(t, tuple):
                    continue
                for s in subterms(t):
                    if s[0] == "f" and s[1] == ob and s[2] in fields and ("*" in fields[s[2]] or "unique_ptr" in fields[s[2]]):
                        found.add(s[2])
    return found


def relations(ck, c, dt=None):
    """all relations of the type that collection c holds"""
    out = []
    prog = ck._prog
    if dt is not None:
        e = dt.edm
        for kind, ms in (("many", dt.many), ("one", dt.ones), ("vec", dt.vecs)):
            for m in ms:
                f = obj_member(ck, dt.handle, e.getter(m.name))
                if len(f) != 1:
                    raise AnalysisError("%s of %s is stored in %s" % (m.name, dt.full, sorted(f)))
                out.append(Rel(kind, m.name, f.pop(), m.type))
    else:
        fs = {name: obj_member(ck, c.handle, "get" + name.capitalize()) for name in ("from", "to")}
        for name in ("from", "to"):
            f = set(fs[name])
            if len(f) > 1:
                f = f - fs["to" if name == "from" else "from"]
            if len(f) != 1:
                raise AnalysisError("%s of %s is stored in %s" % (name, c.rec, sorted(f)))
            out.append(Rel("one", name, f.pop(), ""))
    # containers of the objects that the collection takes over
    fn = c.m("create", 0)
    for o in ck.outs(fn, once=True):
        if o.kind != "ret":
            continue
        for r in out:
            if r.kind == "one":
                continue
            for e in effects(o):
                if e.kind in FILL and e.loc != c.entries and e.args:
                    new = [x for x in effects(o, local=True) if x.kind == "wr" and x.loc[0] == "f" and x.loc[2] == r.field
                           and x.args[0] == e.args[0]]
                    if new:
                        r.tmp = e.loc
    return out


def types_of(ck, colls):
    """(collection, datatype or None) for all collections"""
    dts = {d.coll: d for d in all_datatypes()}
    return [(c, dts.get(c.rec)) for c in colls]


def handle_of_id(t):
    """the handle that an ID was asked for"""
    if t[0] == "f" and t[1][0] == "deref" and t[1][1][0] == "f":
        return t[1][1][1]
    if t[0] == "call" and t[1].split("::")[-1] == "getObjectID":
        b = t[2]
        if b[0] == "deref" and b[1][0] == "f":
            return b[1][1]
    return None


def null_id(t):
    """a constant ID that refers to no object"""
    return t[0] == "agg" and len(t[2]) >= 1 and is_c(t[2][0][1]) and t[2][0][1][1] in (-1, -2)


def slot(s, loc):
    """the constant slot of a buffer list that loc is the content of"""
    if loc[0] == "deref":
        loc = loc[1]
    if loc[0] == "elem" and loc[1] == s.refs and is_c(loc[2]):
        return loc[2][1]
    return None


def full_range(o, idx, conts):
    """idx runs over all positions of one of conts (which have equal length)"""
    if idx[0] != "ind" or idx[2] != C(0) or (len(idx) > 3 and idx[3] != 1):
        return False
    r = loop_range(o, idx)
    if r is None or not any(e[0] == "endloop" and e[1] == idx[1] for e in o.events):
        return False
    return r[1][0] == "size" and r[1][1] in conts


def loops_run(o):
    return {e[1] for e in o.events if e[0] == "endloop"}


class Sub:
    """The rules of another check as part of a check"""

    def __init__(self, ck, prefix, only=None):
        self.ck, self.prefix, self.only = ck, prefix, only

    def __getattr__(self, k):
        return getattr(self.ck, k)

    def ob(self, rule, inst, ok, msg="", where=""):
        if self.only is None or rule in self.only:
            self.ck.ob(self.prefix, inst, ok, msg, where)
        return ok

    def rule(self, *a):
        pass

    def need(self, *a):
        pass


def loads(ck, rule, c, s):
    """an object that is read gets the data at its position and no relations
    but those that the collection keeps for it"""
    fn = c.m("prepareAfterRead", 0)
    data = deref(s.data)
    n = 0
    for o in ck.outs(fn, once=True, assume=s.alive()):
        w = "%s on path: %s" % (fn.loc, o.path()[:400])
        adds = [e for e in effects(o) if c.is_entry_add(e) and len(e.args) == 1]
        loops = [e for e in o.events if e[0] == "endloop"]
        if loops and c.sub(o) is not True:
            ck.ob(rule, c.rec, len(adds) == 1, "%d objects are made for one position" % len(adds), w)
        for e in adds:
            n += 1
            ob = deref(e.args[0])
            ix = [x[2] for x in subterms(o.load(F(ob, "data"))) if x[0] == "elem" and x[1] == data]
            d = o.load(F(ob, "data"))
            ck.ob(rule, c.rec, d[0] == "elem" and d[1] == data and full_range(o, d[2], {data}),
                  "the data of an object is %s" % show(d), w)
            if d[0] == "elem":
                i = o.load(F(ob, c.idf, "index"))
                ck.ob(rule, c.rec, i == d[2], "object %s gets the data at position %s" % (show(i), show(d[2])), w)
            touched = [x for x in effects(o) if x.kind == "wr" and x.loc[0] == "elem" and x.loc[1] == data]
            ck.ob(rule, c.rec, not touched, "changes the stored data", w)
    ck.ob(rule, c.rec, n > 0, "no objects are read", fn.loc)
