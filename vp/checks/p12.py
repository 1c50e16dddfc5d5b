"""P12: ranges expose exactly the elements of their object"""
from ..io import *
from . import p29
from .p29 import same


def run(ck):
    ck.rule("extent", "begin, end and range accessors delimit the elements from the start to the end of the object in its own "
                      "container, and the size is the distance of these")
    ck.rule("index", "access to the element i yields the element i after the start of the object if there is one, and throws otherwise")
    ck.rule("add", "adding an element appends exactly that to the container of this relation and extends the extent of the object by one")
    ck.rule("own", "a new object starts with an empty extent in an empty container of its own")
    ck.rule("same", "all handles see the same extent")
    ck.rule("range", "a range has the elements that it was made of: its accessors agree with them")
    ck.rule("link", "the relations of objects that are read refer to the elements that the collection restores")
    prog = ck.load("core", "cover")
    n = 0
    for dt in all_datatypes():
        for m in dt.vecs + dt.many:
            member(ck, prog, dt, m, dt.many)
            n += 1
    for rec in sorted(r for r in prog.by_rec if r and r.startswith(p29.RR)):
        p29.range_(Sub(ck, "range"), prog, rec)
    for c, dt in types_of(ck, all_colls(ck)):
        if dt is not None:
            loads(ck, "link", c, Storage(c))
    ck.need("extent", 8 * n)
    ck.need("index", 4 * n)
    ck.need("add", n)
    ck.need("own", n)
    ck.need("range", 30)
    ck.need("link", 5)
    ck.assume("mutable handles are only available for objects that were created, not for objects that were read (P01)")


def member(ck, prog, dt, m, many):
    e = dt.edm
    seen = set()
    for h in (dt.handle, dt.mut):
        ob = deref(F(THIS, obj_field(prog, h)))
        inst = "%s of %s" % (m.name, h)
        get = lambda name, n: [f for f in methods(prog, h, name, n) if f.const]
        fb, fe = get(m.name + "_begin", 0), get(m.name + "_end", 0)
        if not fb or not fe:
            ck.ob("extent", inst, False, "has no begin or end")
            continue
        ends = {iter_of(o.value) for f in fb for o in ck.outs(f, once=True)}, {iter_of(o.value) for f in fe for o in ck.outs(f, once=True)}
        if any(len(x) != 1 or None in x for x in ends):
            ck.ob("extent", inst, False, "begin and end are %s" % [[show(o.value) for o in ck.outs(f, once=True)] for f in fb + fe], fb[0].loc)
            continue
        (B, b), (E, x) = ends[0].pop(), ends[1].pop()
        ok = B == E and b != x and all(t[0] == "f" and mentions_obj(t, ob) for t in (B if B[0] == "f" else B[1], b, x))
        ck.ob("extent", inst, ok, "goes from %s in %s to %s in %s" % (show(b), show(B), show(x), show(E)), fb[0].loc)
        if not ok:
            continue
        to = lambda t: rebase(t, ob)
        seen.add((to(B), to(b), to(x)))
        for f in get(m.name + "_size", 0):
            for o in ck.outs(f, once=True):
                ck.ob("extent", inst, o.kind == "ret" and size_of(o.value, B, b, x), "has the size %s" % show(o.value), f.loc)
        name = e.getter(m.name)
        rs = get(name, 0)
        ck.ob("extent", inst, bool(rs), "has no range accessor")
        for f in rs:
            for o in ck.outs(f, once=True):
                v = o.value
                rec = v[2] if v and v[0] == "obj" else None
                if o.kind != "ret" or not rec or not rec.startswith(p29.RR):
                    ck.ob("extent", inst, False, "yields %s" % show(v), f.loc)
                    continue
                rb, re_ = (field_of(ck, method(prog, rec, k, 0)) for k in ("begin", "end"))
                got = [iter_of(o.load(sub_this(r, v))) for r in (rb, re_)]
                ck.ob("extent", inst, got == [(B, b), (B, x)], "yields the range from %s to %s" %
                      tuple(show(o.load(sub_this(r, v))) for r in (rb, re_)), f.loc)
        ix = get(name, 1)
        ck.ob("index", inst, bool(ix), "has no indexed access")
        for f in ix:
            i = par(f, 0)
            hit = False
            for o in ck.outs(f, once=True):
                W = "%s on path: %s" % (f.loc, o.path()[:300])
                inside = within(o, i, B, b, x)
                if o.kind == "throw":
                    ck.ob("index", inst, inside is False, "throws although there is such an element", W)
                    continue
                hit = True
                v = original(o, prog, o.value, strip_type(f.rt))
                ok = v[0] == "elem" and v[1] == B and same(v[2], ("add", b, i)) or \
                    v[0] == "deref" and same(v[1], ("add", ("it", B, b), i)) or \
                    v[0] == "deref" and v[1][0] == "it" and v[1][1] == B and same(v[1][2], ("add", b, i))
                ck.ob("index", inst, ok, "yields %s" % show(v), W)
                ck.ob("index", inst, inside is True, "does not make sure that there is such an element", W)
            ck.ob("index", inst, hit, "never yields an element", f.loc)
        if h == dt.mut:
            adds = [f for f in methods(prog, h, e.adder(m.name), 1)]
            ck.ob("add", inst, bool(adds), "nothing can be added")
            for f in adds:
                p = par(f, 0)
                for o in ck.outs(f, once=True):
                    W = "%s on path: %s" % (f.loc, o.path()[:300])
                    es = [y for y in effects(o)]
                    fill = [y for y in es if y.kind in FILL + ("insert", "emplace", "resize", "append_range")]
                    ok = len(fill) == 1 and fill[0].loc == B and fill[0].kind in FILL and len(fill[0].args) == 1 and the_same(prog, o, fill[0].args[0], p)
                    ck.ob("add", inst, ok, "adds %s" % fill, W)
                    for t, d in ((b, 0), (x, 1)):
                        v = o.load(t)
                        alt = ("size", B)
                        ck.ob("add", inst, same(v, ("add", t, C(d))), "changes %s to %s" % (show(t), show(v)), W)
                    rest = [y for y in es if y not in fill and y.loc != x and y.kind in ("wr", "clear", "reset", "erase")]
                    ck.ob("add", inst, not rest, "changes %s" % rest[:2], W)
        # ----------------------------------------------------------- creation
        if h == dt.mut:
            for f in prog.by_rec.get(dt.mut, []):
                if f.kind == "ctor" and not any("SharedPtr" in t or "Obj" in t for t in f.pt):
                    for o in ck.outs(f, once=True):
                        p = smart(o, F(THIS, obj_field(prog, h)))
                        if not p or p[0] != "addr" or p[1][0] != "obj":
                            continue
                        no = deref(p)
                        cont = o.load(F(no, field_name(B)))
                        vals = [o.load(change_base(t, ob, no)) for t in (b, x)]
                        ok = vals[0] == vals[1] and cont[0] == "addr" and cont[1][0] == "obj"
                        ck.ob("own", "%s of a new %s" % (m.name, dt.full), ok, "goes from %s to %s in %s" %
                              (show(vals[0]), show(vals[1]), show(cont)), f.loc)
    for f in prog.by_rec.get(dt.obj, []):
        if f.kind == "ctor" and not f.params:
            for o in ck.outs(f, once=True):
                vals = [o.load(change_base(t, ob, THIS)) for t in (b, x)]
                cont = o.load(F(THIS, field_name(B)))
                ok = vals[0] == vals[1] and cont[0] == "addr" and cont[1][0] == "obj"
                ck.ob("own", "%s of a new %s" % (m.name, dt.obj), ok, "goes from %s to %s in %s" %
                      (show(vals[0]), show(vals[1]), show(cont)), f.loc)
    ck.ob("same", "%s of %s" % (m.name, dt.full), len(seen) == 1, "differs between the handles")


def extents(ck, prog, h, name):
    """container, start and end of the elements of an object behind a handle"""
    res = []
    for k in ("_begin", "_end"):
        vs = {iter_of(o.value) for f in methods(prog, h, name + k, 0) if f.const for o in ck.outs(f, once=True)}
        if len(vs) != 1 or None in vs:
            return None
        res.append(vs.pop())
    (B, b), (E, x) = res
    return (B, b, x) if B == E and b != x and b[0] == x[0] == "f" else None


def has_base(t, p):
    while isinstance(t, tuple) and t:
        if t == p:
            return True
        t = t[1] if t[0] in ("f", "deref", "elem", "get", "it") else None
    return False


def field_name(B):
    """name of the member of the object that is the container"""
    t = B
    while t[0] == "deref":
        t = t[1]
    return t[2]


def change_base(t, frm, to):
    if t == frm:
        return to
    return tuple(change_base(x, frm, to) for x in t) if isinstance(t, tuple) else t


def rebase(t, ob):
    return change_base(t, ob, ("OBJ",))


def sub_this(t, v):
    return change_base(t, THIS, v)


def mentions_obj(t, ob):
    return ob in set(subterms(t))


def iter_of(v):
    """(container, position) of an iterator"""
    if not v:
        return None
    if v[0] == "it" and len(v) == 3:
        pos = v[2]
        return v[1], pos
    if v[0] == "add" and len(v) == 3:
        for a, k in ((v[1], v[2]), (v[2], v[1])):
            if a[0] == "it" and a[2] in (C(0), ("c", 0), "begin"):
                return a[1], k
    return None


def size_of(v, B, b, x):
    return same(v, ("sub", x, b)) or same(v, ("sub", ("it", B, x), ("it", B, b)))


def within(o, i, B, b, x):
    """whether there is an element i (None: not known)"""
    res = None
    for a, v in o.tests.items():
        n = False
        while a[0] == "not":
            a, n = a[1], not n
        v = v != n
        if a[0] == "lt":
            if same(a[1], i) and size_of(a[2], B, b, x) or same(a[1], ("add", b, i)) and same(a[2], x):
                res = v
            elif size_of(a[1], B, b, x) and same(a[2], i) and v:
                res = False
        elif a[0] == "eq" and v and {True} == {same(t, i) or size_of(t, B, b, x) for t in a[1:]} and size_of(a[1], B, b, x) != size_of(a[2], B, b, x):
            res = False
    return res


def original(o, prog, v, rec):
    """the handle that v is a copy of"""
    if v and v[0] == "obj" and rec in prog.recs and (v[2] == rec):
        w = ident(o, prog, v, rec)
        if w and w[0] == "f":
            return w[1]
    return v


def the_same(prog, o, a, p):
    return a == p or original(o, prog, a, a[2] if a and a[0] == "obj" else None) == p
