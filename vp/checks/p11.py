"""P11: every accessor acts on its own member and on nothing else"""
from ..io import *
from . import p12, p21
from .p12 import change_base, has_base, original, the_same
from .p21 import plain
from .p29 import same
from .p30 import present


def run(ck):
    ck.rule("get", "an accessor yields the member of its object that has this name, and no two members share their storage")
    ck.rule("set", "setting a member stores exactly that value in the storage that the accessor of this member reads, and changes "
                   "nothing else")
    ck.rule("bound", "access to an element of an array member is checked against the size of that array")
    ck.rule("one", "a one-to-one relation yields the object it was set to, or an empty handle if there is none")
    ck.rule("make", "creating an object from values, alone or in a collection, gives every member the value that was passed for it")
    ck.rule("default", "members of new objects have the initial value of the definition")
    ck.rule("column", "reading one member of many elements yields that member of the first elements in order: of as many as were asked "
                      "for, of all if none were or if there are not as many")
    ck.rule("link", "links yield the weight and the objects that were set, each by every accessor there is for it")
    ck.rule("interface", "member access through an interface yields what the wrapped handle yields")
    ck.rule("many", "ranges and indexed access yield, and adding extends, exactly the elements of this vector member or relation")
    try:
        prog = ck.load("core", "cover", "ext")
    except AnalysisError as e:
        # the extension model is valid, so this is about the code for it
        ck.ob("get", "accessors of the extension model", False, "there is no code for it that compiles: ..." + str(e)[-700:])
        prog = ck.load("core", "cover")
    colls = {dt.full: c for c, dt in types_of(ck, all_colls(ck)) if dt is not None}
    n = a = one = mem = 0
    for dt in all_datatypes():
        places = {}
        for h in (dt.handle, dt.mut):
            H = Handle(ck, prog, dt.edm, h, h == dt.mut)
            places[h] = datatype(H, dt)
        ck.ob("get", "members of " + dt.full, len(set(map(repr, places.values()))) == 1, "differ between the handles: %s" % places)
        n += 1
        mem += len(dt.members)
        a += sum(m.array for m in dt.members)
        one += len(dt.ones)
        make(ck, prog, dt, places[dt.mut])
        if dt.full in colls:
            columns(ck, prog, dt, colls[dt.full], places[dt.mut])
            create(ck, prog, dt, colls[dt.full], places[dt.mut])
        defaults(ck, prog, dt, places[dt.mut])
    for m in all_models():
        for i in m.interfaces:
            p21.members(Sub(ck, "interface"), prog, m, i)
    for dt in all_datatypes():
        for m in dt.vecs + dt.many:
            p12.member(Sub(ck, "many"), prog, dt, m, dt.many)
    ls = [p for p in handle_recs(prog) if p[0].startswith("podio::LinkT<")]
    for pair in ls:
        for h in pair:
            link(ck, prog, h, h == pair[1])
    ck.need("get", 2 * mem + n)
    ck.need("set", 2 * mem)
    ck.need("bound", 3 * a)
    ck.need("one", 4 * one)
    ck.need("make", mem)
    ck.need("default", mem)
    ck.need("column", mem)
    ck.need("interface", 5)
    ck.need("many", 100)
    ck.need("link", 10 * len(ls))
    ck.assume("mutable handles are only available for objects that were created, not for objects that were read (P01)")


class Handle:
    def __init__(self, ck, prog, edm, h, mut):
        self.ck, self.prog, self.edm, self.h, self.mut = ck, prog, edm, h, mut
        self.ob = deref(F(THIS, obj_field(prog, h)))
        self.obj = pointee(prog, h)

    def fns(self, name, n):
        return methods(self.prog, self.h, name, n)

    def where(self, f, o):
        return "%s on path: %s" % (f.loc, o.path()[:300])

    def other(self, f, o, loc, rule, inst):
        """nothing but loc is changed"""
        bad = [e for e in effects(o) if not has_base(e.loc, loc) and not e.kind.startswith("reserve")
               and (has_base(e.loc, THIS) or has_base(e.loc, self.ob)) and e.kind != "call"]
        self.ck.ob(rule, inst, not bad, "changes %s" % bad[:2], self.where(f, o))


def datatype(H, dt):
    """where every member is stored, relative to the object"""
    ck, prog, e = H.ck, H.prog, dt.edm
    places = {}
    subs = [(m, None) for m in dt.members]
    for m in dt.members:
        subs += [(s, m) for s in dt.submembers(m)]
    for m, up in subs:
        inst = "%s%s of %s" % (up.name + "." if up else "", m.name, H.h)
        get = e.getter(m.name, m.type if not m.array else "")
        rs = [f for f in H.fns(get, 0) if f.const]
        ck.ob("get", inst, bool(rs), "has no accessor")
        want = (F(places[up.name], m.name) if up and places.get(up.name) else None) if up else None
        got = set()
        for f in rs:
            for o in ck.outs(f, once=True):
                got.add(plain(o.value, f.rt) if o.kind == "ret" else None)
                H.other(f, o, ("nothing",), "get", inst)
        p = got.pop() if len(got) == 1 else None
        ok = p is not None and has_base(p, H.ob) and p[0] == "f" and not any(t[0] in ("elem", "it") for t in subterms(p))
        if up:
            ok = ok and want is not None and p == change_base(want, ("OBJ",), H.ob)
        ck.ob("get", inst, ok, "is %s" % [show(x) for x in [p] if x] if p else "is one of %s" % [show(x) for x in got if x], rs[0].loc if rs else None)
        if not ok:
            continue
        if not up:
            rel = change_base(p, H.ob, ("OBJ",))
            clash = [k for k, v in places.items() if v == rel]
            ck.ob("get", inst, not clash, "is stored like %s in %s" % (clash, show(p)), rs[0].loc)
            places[m.name] = rel
        if m.array and not up:
            element(H, m, p, get, inst)
        if not H.mut:
            continue
        # ------------------------------------------------------------ setters
        name = e.setter(m.name)
        ws = [f for f in H.fns(name, 1) if not f.const and not index_only(m, f)]
        ck.ob("set", inst, bool(ws), "cannot be set")
        for f in ws:
            for o in ck.outs(f, once=True):
                if o.kind != "ret":
                    ck.ob("set", inst, False, "cannot be set", H.where(f, o))
                    continue
                bad = assigned(o, prog, p, par(f, 0), strip_type(f.params[0]["t"]))
                ck.ob("set", inst, not bad, "is %s" % ", ".join("%s at %s" % (show(v), show(l)) for l, v in bad[:3]), H.where(f, o))
                H.other(f, o, p, "set", inst)
        for f in H.fns(get, 0):
            if not f.const and f.rt.strip().endswith("&"):
                for o in ck.outs(f, once=True):
                    ck.ob("set", inst, o.kind == "ret" and plain(o.value, f.rt) == p, "can be changed through a reference to %s" %
                          (show(o.value) if o.value else "nothing"), H.where(f, o))
                    H.other(f, o, ("nothing",), "set", inst)
        if m.array and not up:
            ws = [f for f in H.fns(name, 2) if not f.const]
            ck.ob("set", "elements of " + inst, bool(ws), "cannot be set")
            for f in ws:
                i, v = par(f, 0), par(f, 1)
                el = ("elem", p, i)
                for o in ck.outs(f, once=True):
                    if o.kind != "ret":
                        ck.ob("bound", inst, beyond(o, i, p, m.n) is True, "throws although there is such an element", H.where(f, o))
                        continue
                    bad = assigned(o, prog, el, v, strip_type(f.params[1]["t"]))
                    ck.ob("set", "elements of " + inst, not bad, "is %s" % ", ".join("%s at %s" % (show(y), show(l)) for l, y in bad[:3]), H.where(f, o))
                    ck.ob("bound", inst, beyond(o, i, p, m.n) is False, "is written without looking at the size", H.where(f, o))
                    H.other(f, o, p, "set", "elements of " + inst)
    for m in dt.ones:
        single(H, "one", m.name, m.type, e.getter(m.name), e.setter(m.name))
    return places


def index_only(m, f):
    """is this the accessor of an element of an array member, rather than a setter"""
    return m.array and strip_type(f.rt) != "void" and "array" not in strip_type(f.params[0]["t"])


def element(H, m, p, get, inst):
    ck = H.ck
    fs = [f for f in H.fns(get, 1) if f.const or index_only(m, f)]
    ck.ob("get", "elements of " + inst, bool(fs), "have no accessor")
    for f in fs:
        i = par(f, 0)
        for o in ck.outs(f, once=True):
            if o.kind != "ret":
                ck.ob("bound", inst, beyond(o, i, p, m.n) is True, "throws although there is such an element", H.where(f, o))
                continue
            ck.ob("get", "elements of " + inst, o.value == ("elem", p, i), "yield %s" % show(o.value), H.where(f, o))
            ck.ob("bound", inst, beyond(o, i, p, m.n) is False, "is read without looking at the size", H.where(f, o))
            H.other(f, o, ("nothing",), "get", "elements of " + inst)


def beyond(o, i, p, n):
    """is i not an index of the array: True, False, None if not known"""
    for e in o.events:
        if e[0] == "at" and e[1] == p and same(e[2], i):
            return False
    for a, v in o.tests.items():
        while a[0] == "not":
            a, v = a[1], not v
        if a[0] == "lt" and same(a[1], i) and (a[2] == C(n) or a[2] == ("size", p)):
            return not v
        if a[0] == "lt" and same(a[2], i) and a[1] == C(n - 1):
            return v
    return None


def assigned(o, prog, loc, val, ty, depth=0, v=None):
    """parts of loc that do not have the value val"""
    v, val = plain(v or o.load(loc), ty), plain(val, ty)
    if v == val or v == o.load(val) or (v[0] == "obj" and o.load(v) == val):
        return []
    rec = prog.recs.get(ty)
    fs = rec["fields"] if rec and depth < 6 and not ty.startswith("std::") else []
    d = dict(v[2]) if v[0] == "agg" else {}
    bad = []
    for k, f in enumerate(fs):
        w = d.get(f["n"], d.get(k))
        bad += assigned(o, prog, F(loc, f["n"]), F(val, f["n"]), strip_type(f["t"]), depth + 1, w)
    return bad if fs else [(loc, v)]


def single(H, rule, name, ty, get, set_):
    """a relation to one object"""
    ck, prog = H.ck, H.prog
    inst = "%s of %s" % (name, H.h)
    fs = [f for f in H.fns(get, 0) if f.const]
    ck.ob(rule, inst, bool(fs), "has no accessor")
    where = set()
    for f in fs:
        where |= single_get(H, rule, inst, f)
    if len(where) != 1:
        ck.ob(rule, inst, False, "is read from %s" % [show(x) for x in where], fs[0].loc if fs else None)
        return None
    slot_ = where.pop()
    if H.mut:
        ws = [f for f in H.fns(set_, 1) if not f.const]
        ck.ob(rule, inst, bool(ws), "cannot be set")
        for f in ws:
            single_set(H, rule, inst, f, slot_)
    return slot_


def single_get(H, rule, inst, f):
    """checks an accessor of a relation, yields the places it reads from"""
    ck, prog = H.ck, H.prog
    rec = strip_type(f.rt)
    where, empty, full = set(), False, False
    for o in ck.outs(f, once=True):
        W = H.where(f, o)
        if o.kind != "ret":
            ck.ob(rule, inst, False, "throws", W)
            continue
        p = ident(o, prog, o.value, rec)
        H.other(f, o, ("nothing",), rule, inst)
        if p == NULL:
            empty = True
            gone = {x for x in pointers(o, H.ob) if present(o, x) is False}
            ck.ob(rule, inst, bool(gone), "is empty no matter what it was set to", W)
            where |= gone
            continue
        src = holder(p, H.ob, rec, prog)
        full = True
        ck.ob(rule, inst, src is not None, "yields an object with the identity %s" % (show(p) if p else "unknown"), W)
        if src is not None:
            ck.ob(rule, inst, present(o, src) is True, "is read from %s no matter whether it was set" % show(src), W)
            where.add(src)
    ck.ob(rule, inst, full and empty, "is %s" % ("never empty" if full else "never set"), f.loc)
    return where


def pointers(o, ob):
    res = set()
    for a in o.tests:
        for t in subterms(a):
            if isinstance(t, tuple) and t and t[0] == "f" and t[1] == ob:
                res.add(t)
    return res


def holder(p, ob, rec, prog):
    """the pointer of the object that holds a handle with the identity p"""
    if p is None:
        return None
    t = p
    while isinstance(t, tuple) and t and t[0] in ("f", "deref"):
        if t[0] == "deref" and t[1][0] == "f" and t[1][1] == ob:
            # nothing but the own identity of what is held
            k = concept_field(prog, rec) or obj_field(prog, rec)
            if p == F(t, k):
                return t[1]
            return None
        t = t[1]
    return None


def single_set(H, rule, inst, f, place):
    ck, prog = H.ck, H.prog
    v = par(f, 0)
    ty = strip_type(f.params[0]["t"])
    for o in ck.outs(f, once=True):
        W = H.where(f, o)
        if o.kind != "ret":
            ck.ob(rule, inst, False, "cannot be set", W)
            continue
        w = o.load(place)
        n = w[1] if w[0] == "addr" and w[1][0] == "obj" else None
        ck.ob(rule, inst, n is not None, "refers to %s after it was set" % show(w), W)
        if n is not None:
            a, b = ident(o, prog, n, n[2]), wanted(o, prog, v, ty, n[2])
            ck.ob(rule, inst, a is not None and a in b, "has the identity %s after it was set to one with %s" %
                  (show(a) if a else "unknown", [show(x) for x in b]), W)
        H.other(f, o, place, rule, inst)


def wanted(o, prog, v, ty, rec):
    """what the identity of v looks like once it is stored as a rec"""
    res = set()
    cf = concept_field(prog, ty) if ty in prog.recs else None
    if cf:
        res.add(F(v, cf))
    elif ty in prog.recs:
        res.add(F(v, obj_field(prog, ty)))
    i = ident(o, prog, v, ty)
    if i is not None:
        res.add(i)
    return res


# ------------------------------------------------------------------- creation
def own_object(o, prog, dt, p):
    return p[1] if p and p[0] == "addr" and p[1][0] == "obj" and p[1][2] == dt.obj else None


def make(ck, prog, dt, places):
    if not dt.members:
        return
    fs = [f for f in prog.by_rec.get(dt.mut, []) if f.kind == "ctor" and len(f.params) == len(dt.members)
          and not any("SharedPtr" in t or "Obj" in t for t in f.pt)]
    ck.ob("make", dt.mut, bool(fs), "cannot be created from values")
    for f in fs:
        for o in ck.outs(f, once=True):
            W = "%s on path: %s" % (f.loc, o.path()[:300])
            n = own_object(o, prog, dt, smart(o, F(THIS, obj_field(prog, dt.mut))))
            ck.ob("make", dt.mut, n is not None and o.kind == "ret", "has no object", W)
            if n is None:
                continue
            for k, m in enumerate(dt.members):
                if m.name in places:
                    bad = assigned(o, prog, change_base(places[m.name], ("OBJ",), n), par(f, k), strip_type(f.params[k]["t"]))
                    ck.ob("make", "%s of a new %s" % (m.name, dt.mut), not bad, "is %s" % [show(x[1]) for x in bad[:2]], W)


def create(ck, prog, dt, c, places):
    for f in methods(prog, c.rec, "create", None):
        if not f.params or len(f.params) != len(dt.members):
            continue
        for o in ck.outs(f, once=True):
            W = "%s on path: %s" % (f.loc, o.path()[:300])
            if o.kind != "ret":
                continue
            n = own_object(o, prog, dt, smart(o, F(o.value, obj_field(prog, dt.mut))))
            ck.ob("make", "create of " + c.rec, n is not None, "yields no new object", W)
            if n is None:
                continue
            for k, m in enumerate(dt.members):
                if m.name in places:
                    loc = change_base(places[m.name], ("OBJ",), n)
                    ok = value_at(o, prog, loc, n) == par(f, k) or not assigned(o, prog, loc, par(f, k), strip_type(f.params[k]["t"]))
                    ck.ob("make", "%s of an object of %s" % (m.name, c.rec), ok, "is %s" % show(o.load(loc)), W)


def value_at(o, prog, loc, n):
    """the value at loc, looking into aggregates that were stored whole"""
    v = o.load(loc)
    if v != loc:
        return v
    path = []
    t = loc
    while t != n and t[0] == "f":
        path.insert(0, t[2])
        t = t[1]
        w = o.load(t)
        if w[0] == "agg":
            for k in path:
                w = dict(w[2]).get(k) if w and w[0] == "agg" else None
            return w
    return v


def defaults(ck, prog, dt, places):
    for f in prog.by_rec.get(dt.obj, []) + prog.by_rec.get(dt.mut, []):
        if f.kind != "ctor" or f.params:
            continue
        for o in ck.outs(f, once=True):
            n = THIS if f.rec == dt.obj else own_object(o, prog, dt, smart(o, F(THIS, obj_field(prog, dt.mut))))
            if n is None:
                continue
            for m in dt.members:
                if m.name not in places:
                    continue
                v = value_at(o, prog, change_base(places[m.name], ("OBJ",), n), n)
                inst = "%s of a new %s" % (m.name, dt.full)
                ck.ob("default", inst, v is not None, "has no value", f.loc)
                for name, t, init, w in leaves(dt.edm, m.name, m.type, m.array, m.init, v):
                    want = lit(init)
                    ck.ob("default", "%s of a new %s" % (name, dt.full), num(w) == want, "is %s instead of %s" % (show(w) if w else None, init or 0), f.loc)


def leaves(edm, name, ty, array, init, v):
    """(name, type, initialiser, value) of the values that make up a member"""
    inits = [x.strip() for x in init.split(",")] if init and init.strip() else []
    comp = None if array else edm.component(ty)
    parts = dict(v[2]) if v and v[0] == "agg" else None
    if array:
        while parts is not None and len(parts) == 1 and "_M_elems" in parts:
            e = parts["_M_elems"]
            parts = dict(e[2]) if e[0] == "agg" else None if num(e) == 0 else {"?": e}
        for i in range(max([len(inits)] + [k + 1 for k in parts or {} if isinstance(k, int)])):
            w = parts.get(i, C(0)) if parts is not None else C(0)
            if w[0] != "agg":
                yield "%s[%d]" % (name, i), ty, inits[i] if i < len(inits) else None, w
        if parts and "?" in parts:
            yield name, ty, None, parts["?"]
    elif comp:
        for i, s in enumerate(comp.members):
            w = parts.get(s.name) if parts is not None else None
            yield from leaves(edm, "%s.%s" % (name, s.name), s.type, s.array, inits[i] if i < len(inits) else s.init, w)
    else:
        yield name, ty, inits[0] if inits else None, v


def lit(init):
    t = (init or "0").strip()
    if t in ("true", "false"):
        return float(t == "true")
    try:
        return float(int(t, 0))
    except ValueError:
        pass
    return float(t.rstrip("fFlLuU"))


def num(v):
    while v and v[0] in ("cast", "narrow"):
        v = v[-1]
    if v is None or not is_c(v):
        return None
    if isinstance(v[1], (bool, int, float)):
        return float(v[1])
    try:
        return float(v[1])
    except (TypeError, ValueError):
        return None


# -------------------------------------------------------------------- columns
def columns(ck, prog, dt, c, places):
    for m in dt.members:
        fs = [f for f in methods(prog, c.rec, m.name, 1) if f.const]
        inst = "%s of the elements of %s" % (m.name, c.rec)
        ck.ob("column", inst, bool(fs), "cannot be read")
        if m.name not in places:
            continue
        for f in fs:
            n = par(f, 0)
            size = ("size", c.entries)
            for o in ck.outs(f, once=True):
                W = "%s on path: %s" % (f.loc, o.path()[:300])
                if o.kind != "ret" or o.value is None or o.value[0] != "obj":
                    ck.ob("column", inst, False, "yields %s" % (show(o.value) if o.value else o.kind), W)
                    continue
                res = [e for e in effects(o, local=True) if e.loc == o.value and e.kind not in ("reserve", "shrink_to_fit")]
                if not res:
                    # no element was looked at: there must be none to look at
                    ran_ = any(e[0] == "loop" for e in o.events)
                    ck.ob("column", inst, not ran_, "yields nothing", W)
                    continue
                ok = len(res) == 1 and res[0].kind in FILL and len(res[0].args) == 1
                v = res[0].args[0] if ok else None
                ix = [i for i in inds(v)] if ok else []
                ok = ok and len(set(ix)) == 1 and v == change_base(places[m.name], ("OBJ",), deref(("elem", c.entries, ix[0])))
                ck.ob("column", inst, ok, "yields %s" % (show(v) if v else res[:2]), W)
                if not ok:
                    continue
                lo, hi = bounds(o, ix[0])
                ck.ob("column", inst, lo == C(0), "starts at %s" % (show(lo) if lo else None), W)
                for a in range(5):
                    for b in range(1, 5):
                        env = {n: a, size: b}
                        if possible(o, env):
                            h = value_of(hi, env)
                            ck.ob("column", inst, h == (min(a, b) if a else b), "ends at %s of %d elements if %s were asked for" %
                                  (show(hi) if hi else None, b, a or "none"), W)


def value_of(t, env):
    """the number that a term stands for"""
    if t in env:
        return env[t]
    if not t:
        return None
    if is_c(t):
        return t[1] if isinstance(t[1], int) else None
    if t[0] in ("cast", "narrow"):
        return value_of(t[-1], env)
    ts = t[3] if t[0] == "call" and len(t) > 3 else t[1:]
    op = t[1].rsplit("::", 1)[-1] if t[0] == "call" else t[0]
    f = {"min": min, "max": max, "add": lambda x, y: x + y, "sub": lambda x, y: x - y}.get(op)
    if f is None or len(ts) != 2:
        return None
    vs = [value_of(x, env) for x in ts]
    return None if None in vs else f(*vs)


def bounds(o, ind):
    r = loop_range(o, ind)
    if r is None:
        return None, None
    return r[0], r[1]


# ---------------------------------------------------------------------- links
def link(ck, prog, h, mut):
    H = Handle(ck, prog, None, h, mut)
    slots = {}
    args = split_args(h)
    for name, ty in zip(("From", "To"), args):
        slots[name] = single(H, "link", name, ty, "get" + name, "set" + name)
    ck.ob("link", h, None in slots.values() or slots["From"] != slots["To"], "keeps both ends in the same place")
    fs = H.fns("getWeight", 0)
    where = {o.value for f in fs for o in ck.outs(f, once=True)}
    W = where.pop() if len(where) == 1 else None
    ck.ob("link", "weight of " + h, W is not None and W[0] == "f" and has_base(W, H.ob), "is %s" % (show(W) if W else "missing"))
    if mut and W is not None:
        ws = H.fns("setWeight", 1)
        ck.ob("link", "weight of " + h, bool(ws), "cannot be set")
        for f in ws:
            for o in ck.outs(f, once=True):
                ck.ob("link", "weight of " + h, o.kind == "ret" and o.load(W) == par(f, 0), "is %s after it was set" % show(o.load(W)), H.where(f, o))
                H.other(f, o, W, "link", "weight of " + h)
    for f in H.fns("get", 0):
        t = f.targs[0] if f.targs else None
        inst = "get<%s> of %s" % (t, h)
        t = str(t)[:-2] if str(t).endswith("UL") else t
        if str(t) == "2":
            for o in ck.outs(f, once=True):
                ck.ob("link", inst, o.kind == "ret" and o.value == W, "is %s" % show(o.value), H.where(f, o))
            continue
        end = {"0": "From", "1": "To"}.get(str(t)) or ("From" if strip_type(str(t)) == args[0] else "To" if strip_type(str(t)) == args[1] else None)
        if end is None or slots[end] is None:
            continue
        got = single_get(H, "link", inst, f)
        ck.ob("link", inst, got == {slots[end]}, "is read from %s" % [show(x) for x in got], f.loc)
    for f in H.fns("set", 1):
        ty = strip_type(f.params[0]["t"])
        end = "From" if ty == args[0] else "To" if ty == args[1] else None
        if end is None:
            ends = [k for k, a in zip(("From", "To"), args) if concept_field(prog, a)]
            end = ends[0] if len(ends) == 1 else None
        if end and slots[end]:
            single_set(H, "link", "set(%s) of %s" % (ty, h), f, slots[end])


def split_args(h):
    s, depth, out, cur = h[h.index("<") + 1:], 0, [], ""
    for ch in s:
        if ch == "<":
            depth += 1
        if ch == ">":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out
