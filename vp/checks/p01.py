"""P01: immutable views cannot change stored data"""
import re

from .. import witness
from ..io import *
from .p12 import change_base, has_base
from .p29 import RR

STD = ("std::", "__gnu_cxx::")
PLUMBING = ("std::allocator<", "std::char_traits<", "std::default_delete<", "std::hash<", "std::less<", "std::equal_to<")


def split_args(t):
    """top level template arguments of a type"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, depth, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def views(t):
    """(type, how) of everything a value of type t gives access to: how is
    "value", "const" (through a pointer or reference to const) or "open" """
    t = t.strip()
    if t.endswith("*const"):
        t = t[:-5].strip()
    if t.endswith("&") or t.endswith("*"):
        inner = t.rstrip("&").strip() if t.endswith("&") else t[:-1].strip()
        if inner.endswith("*") or inner.endswith("*const"):
            yield from views(inner)
            return
        base = strip_type(inner)
        how = "const" if inner.startswith("const ") else "open"
        yield base, how
        return
    base = strip_type(t)
    if base.startswith(STD) and "<" in base:
        if base.startswith(PLUMBING):
            return
        for a in split_args(base):
            if not a.startswith(PLUMBING) and not re.fullmatch(r"-?\d+[a-zA-Z]*", a):
                yield from views(a)
        return
    yield base, "value"


class Closure:
    """the immutable API: everything that is reachable from immutable views"""

    def __init__(self, ck, prog):
        self.ck, self.prog = ck, prog
        self.todo, self.seen = [], set()
        self.fns = []
        self.handles, self.muts = set(), {}
        for h, m in handle_recs(prog):
            self.handles.add(h)
            self.muts[m] = h
        for i in all_interfaces():
            self.handles.add(i.rec())
        self.objs = {pointee(prog, h): h for h, m in handle_recs(prog)}

    def add(self, rec, how):
        if rec not in self.prog.by_rec or rec.startswith(STD):
            return
        if (rec, how) in self.seen or how == "const" and (rec, "value") in self.seen:
            return
        self.seen.add((rec, how))
        self.todo.append((rec, how))

    def run(self):
        while self.todo:
            rec, how = self.todo.pop()
            for f in self.prog.by_rec.get(rec, []):
                if f.acc != "public" or f.kind == "ginit":
                    continue
                if f.kind in ("dtor", "ctor", "copyctor", "movector"):
                    if how == "value":
                        self.fns.append(f)
                    continue
                if f.static or how == "const" and not f.const:
                    continue
                self.fns.append(f)
                for base, h in views(f.rt or "void"):
                    if base in self.muts or h == "open":
                        continue
                    self.add(base, h)
            for b in self.prog.recs.get(rec, {}).get("bases", []):
                self.add(b["t"] if isinstance(b, dict) else b, how)


def run(ck):
    ck.rule("open", "nothing that is reachable from immutable views hands out a pointer or reference through which data can be changed")
    ck.rule("source", "mutable handles are only made for new objects, from other mutable handles, or by non-constant collections")
    ck.rule("effect", "no operation of immutable views changes anything in an object or in the elements of a collection")
    ck.rule("argument", "no function changes the object behind an immutable handle or constant collection it was passed")
    ck.rule("convert", "immutable handles cannot be turned into mutable ones")
    ck.rule("absent", "immutable handles, interfaces and links have nothing to set or add values with")
    ck.rule("element", "the elements of constant collections, ranges and vectors are immutable")
    ck.rule("constant", "constant collections, frames and parameters offer nothing that changes them")
    prog = ck.load("core", "cover")
    c = Closure(ck, prog)
    colls = {x.rec: x for x in all_colls(ck)}
    users = [r for r in prog.by_rec if r and r.startswith("podio::UserDataCollection<")]
    models = {}
    for h in sorted(c.handles):
        c.add(h, "value")
    for i in all_interfaces():
        for t in i.types:
            models["%s::Model<%s>" % (i.rec(), t)] = t
    for m in models:
        c.add(m, "value")
    for r in list(colls) + users + ["podio::Frame", "podio::CollectionBase"]:
        c.add(r, "const")
    c.run()
    kinds = {"podio::Frame": None}
    for rec, how in sorted(c.seen):
        if rec in colls and how == "const":
            kinds[rec] = colls[rec]
    concepts = {i.rec(): F(THIS, concept_field(prog, i.rec())) for i in all_interfaces()}
    n = 0
    for f in c.fns:
        inst = "%s of %s" % (sig(f), f.rec)
        n += 1
        muts = [b for b, _ in views(f.rt or "void") if b in c.muts]
        opened = [b for b, h in views(f.rt or "void") if h == "open"]
        big = f.name in ("print", "to_json", "operator<<")
        outs = None if big else ck.outs(f, once=True)
        if muts:
            fresh(ck, prog, f, outs, muts[0], inst)
        else:
            ck.ob("source", inst, True, "", f.loc)
        if opened and outs is not None:
            for o in outs:
                v = o.value
                ok = o.kind != "ret" or v is not None and not through(v) and not maybe_inside(v) or opened[0].startswith("std::basic_ostream")
                ck.ob("open", inst, ok, "yields %s of type %s" % (show(v) if v else None, f.rt), f.loc)
        else:
            ck.ob("open", inst, not opened or opened[0].startswith("std::basic_ostream"), "yields %s" % f.rt, f.loc)
        if outs is None:
            continue
        for o in outs:
            bad = []
            for e in effects(o):
                if f.rec == "podio::Frame" and not is_local(e.loc) and (contains(e.loc, THIS) or contains(held(o, e.loc), THIS)) and inside(None, e, prog, ck, f):
                    bad.append(e)
                if not has_base(e.loc, THIS) or f.rec == "podio::Frame":
                    continue
                if f.rec in kinds:
                    if inside(kinds[f.rec], e, prog, ck, f):
                        bad.append(e)
                elif f.rec in users:
                    t = next((x["t"] for x in prog.recs[f.rec]["fields"] if e.loc == F(THIS, x["n"])), None)
                    if not (e.kind == "wr" and t == "bool"):
                        bad.append(e)
                elif through(e.loc) and not (e.kind.startswith("call:") and f.rec in concepts and e.loc == deref(concepts[f.rec])):
                    bad.append(e)
            ck.ob("effect", inst, not bad, "changes %s" % bad[:2], "%s on path: %s" % (f.loc, o.path()[:200]))
    sources(ck, prog, c)
    arguments(ck, prog, c, colls)
    types(ck, prog)
    ck.need("open", 500)
    ck.need("effect", 400)
    ck.need("source", 500)
    ck.need("argument", 100)
    ck.need("convert", 50)
    ck.need("absent", 100)
    ck.need("element", 100)
    ck.need("constant", 100)
    ck.assume("code that a data model definition adds to a type (ExtraCode) is up to its author, as far as the cover model has it, it is checked")
    ck.assume("no const_cast, no access to private members by specialisations and no reinterpretation of memory in the using program")


def sig(f):
    return "%s(%s)%s" % (f.name, ", ".join(p["t"] for p in f.params)[:60], " const" if f.const else "")


def through(t):
    """does a location lie behind a pointer (or in a container) of its base"""
    while isinstance(t, tuple) and t:
        if t[0] in ("f", "addr"):
            t = t[1]
        elif t[0] == "deref":
            if t[1] == THIS or t[1][0] == "addr":
                t = t[1]
                continue
            return True
        elif t[0] in ("elem", "get", "it"):
            return True
        else:
            return False
    return False


def maybe_inside(v):
    """values that no place is known for"""
    while v[0] in ("f", "addr", "deref"):
        v = v[1]
    return v[0] in ("call", "dyncast", "cast")


def inside(c, e, prog, ck, f):
    """does an effect in a constant collection or frame concern its elements"""
    if c is None:
        if not e.kind.startswith("call:"):
            return True
        return not harmless(ck, prog, e)
    own = {c.entries}
    s = Storage(c)
    own.update(s.tmps)
    t = e.loc
    while isinstance(t, tuple) and t and len(t) > 1:
        if t in own:
            return True
        if t[0] == "elem" and t[1] == c.entries:
            return True
        t = t[1]
    return False


def harmless(ck, prog, e):
    """a member function of what a frame holds that is not const, but does not change anything"""
    name = e.kind[len("call:"):]
    fs = [f for f in prog.funcs.values() if f.rec and f.rec.startswith("podio::Frame::FrameModel<") and f.name == name
          and len(f.params) == len(e.args)]
    return bool(fs) and not any(effects(o) for f in fs for o in ck.outs(f, once=True))


def held(o, t):
    """what the temporary at the root of a location stands for"""
    while isinstance(t, tuple) and t[0] in ("f", "deref", "elem", "addr", "get"):
        t = t[1]
    return o.load(t) if t[0] == "tmp" else t


def fresh(ck, prog, f, outs, mut, inst):
    for o in outs or []:
        if o.kind != "ret":
            continue
        a = ident(o, prog, o.value, mut) if o.value and strip_type(f.rt) == mut else None
        ok = a is not None and a[0] == "addr" and is_local(a[1]) or a is not None and a[0] in ("new", "obj") or a == NULL
        ck.ob("source", inst, ok, "yields a mutable handle of %s" % (show(a) if a else "something else"), "%s on path: %s" % (f.loc, o.path()[:200]))


def sources(ck, prog, c):
    """everything else that is available to users and yields mutable handles"""
    for mut, h in sorted(c.muts.items()):
        obj = pointee(prog, h)
        for f in prog.by_rec.get(mut, []):
            if f.acc != "public" or f.kind not in ("ctor",):
                continue
            inst = "%s of %s" % (sig(f), mut)
            bad = [x["t"] for x in f.params if strip_type(x["t"]) == obj or obj + ">" in x["t"]]
            ck.ob("source", inst, not bad, "makes a mutable handle from %s" % bad, f.loc)
            for o in ck.outs(f, once=True) if not bad else ():
                if o.kind != "ret":
                    continue
                a = ident(o, prog, THIS, mut)
                ok = a is not None and (a == NULL or a[0] == "addr" and is_local(a[1]) or a[0] in ("new", "obj"))
                ck.ob("source", inst, ok, "is made for %s" % (show(a) if a else "something unknown"), f.loc)
    for f in prog.funcs.values():
        if f.kind in ("ginit", "ctor") or f.acc in ("private", "protected") or (f.rec and (f.rec, "value") in c.seen):
            continue
        if f.rec in c.muts or f.file is None or not f.loc.startswith(("repo:", "gen:")):
            continue
        muts = [b for b, _ in views(f.rt or "void") if b in c.muts]
        given = [x for x in f.params if any(b in c.handles or b in c.muts.values() or h == "const" and b.endswith("Collection")
                                            for b, h in views(x["t"]))]
        if muts and given:
            fresh(ck, prog, f, ck.outs(f, once=True), muts[0], "%s of %s" % (sig(f), f.rec))


def arguments(ck, prog, c, colls):
    for f in prog.funcs.values():
        if f.kind == "ginit" or not f.loc.startswith(("repo:", "gen:")) or f.name in ("print", "to_json", "operator<<", "__cppyy_pythonize__"):
            continue
        idx = []
        for i, x in enumerate(f.params):
            v = list(views(x["t"]))
            if len(v) == 1 and v[0][1] in ("const", "value") and (v[0][0] in c.handles or v[0][0] in colls and v[0][1] == "const"):
                idx.append((i, v[0][0]))
        if not idx or f.acc == "private" and f.kind == "ctor":
            continue
        try:
            outs = ck.outs(f, once=True)
        except AnalysisError:
            continue
        for i, t in idx:
            inst = "parameter %d of %s of %s" % (i, sig(f), f.rec)
            y = par(f, i)
            bad = []
            for o in outs:
                for e in effects(o):
                    if not has_base(e.loc, y) or not through(e.loc):
                        continue
                    if t in colls:
                        if not inside_of(colls[t], e.loc, y):
                            continue
                    elif concept_field(prog, t) is not None and e.kind.startswith("call:"):
                        continue
                    bad.append(e)
            ck.ob("argument", inst, not bad, "changes %s" % bad[:2], f.loc)


def inside_of(c, loc, y):
    t = change_base(loc, y, THIS)
    while isinstance(t, tuple) and t and len(t) > 1:
        if t == c.entries:
            return True
        t = t[1]
    return False


# ---------------------------------------------------------------------- types
PRELUDE = """
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include "podio/LinkCollection.h"
#include "podio/UserDataCollection.h"
template <typename R>
constexpr bool vp_closed = !std::is_lvalue_reference_v<R> || std::is_const_v<std::remove_reference_t<R>>;
template <typename R>
constexpr bool vp_const_ptr = std::is_pointer_v<R> ? std::is_const_v<std::remove_pointer_t<R>> : vp_closed<R>;
"""


def types(ck, prog):
    names, items = set(), {"convert": [], "absent": [], "element": [], "constant": []}

    def no(rule, inst, obj, fn, *args, what=None):
        """obj.fn(args...) must not be possible"""
        names.add(fn)
        items[rule].append((inst, "!vp_can_%s<%s>" % (fn, ", ".join((obj,) + args)), "%s can be called with %s" % (fn, args or "nothing")))

    def yes(rule, inst, expr, msg):
        items[rule].append((inst, expr, msg))

    def val(t, x="&"):
        return "std::declval<%s%s>()" % (t, x)

    for dt in all_datatypes():
        X, M, C, e = "::" + dt.handle, "::" + dt.mut, "::" + dt.coll, dt.edm
        inst = dt.full
        for a in ("%s", "const %s&", "%s&", "const %s"):
            yes("convert", inst, "!std::is_constructible_v<%s, %s>" % (M, a % X), "a mutable handle can be made from an immutable one")
            yes("convert", inst, "!std::is_convertible_v<%s, %s>" % (a % X, M), "an immutable handle can be converted to a mutable one")
            yes("convert", inst, "!std::is_assignable_v<%s&, %s>" % (M, a % X), "an immutable handle can be assigned to a mutable one")
        for a in ("%s*", "const %s*", "podio::utils::MaybeSharedPtr<%s>"):
            yes("convert", inst, "!std::is_constructible_v<%s, %s>" % (M, a % ("::" + dt.obj)), "a mutable handle can be made from an object")
        yes("convert", inst, "!std::is_base_of_v<%s, %s> && !std::is_base_of_v<%s, %s>" % (X, M, M, X), "the handles derive from each other")
        for x in (X, "const " + X):
            scope = inst
            for m in dt.members:
                t = mtype(m)
                no("absent", scope, x, e.setter(m.name), "const %s&" % t)
                if m.array:
                    no("absent", scope, x, e.setter(m.name), "std::size_t", "const %s&" % etype(m))
                yes("element", scope, "vp_closed<decltype(%s.%s())>" % (val(x), e.getter(m.name, m.type)), "%s can be changed through its getter" % m.name)
                for s in dt.submembers(m):
                    no("absent", scope, x, e.setter(s.name), "const %s&" % mtype(s))
            for m in dt.ones:
                no("absent", scope, x, e.setter(m.name), "const ::%s&" % m.type)
            for m in dt.many + dt.vecs:
                t = etype(m)
                no("absent", scope, x, e.adder(m.name), "const %s&" % t)
                r = "%s.%s()" % (val(x), e.getter(m.name, m.type))
                elems = ["*%s.begin()" % r, "%s[0]" % r, "%s.at(0)" % r, "*%s.%s_begin()" % (val(x), m.name), "%s.%s(0)" % (val(x), e.getter(m.name, m.type))]
                for q in elems:
                    yes("element", scope, "vp_closed<decltype(%s)>" % q, "an element of %s can be changed" % m.name)
                    yes("element", scope, "std::is_same_v<std::remove_cvref_t<decltype(%s)>, %s>" % (q, t), "an element of %s is no %s" % (m.name, t))
        for c in ("const " + C,):
            for q in ("%s[0]", "%s.at(0)", "*%s.begin()", "*%s.cbegin()", "*%s.rbegin()", "*%s.crbegin()", "*(--%s.end())", "*%s.begin().operator->()"):
                yes("element", inst, "std::is_same_v<std::remove_cvref_t<decltype(%s)>, %s>" % (q % val(c), X), "%s is no immutable handle" % q % "c")
            for q in ("*%s.cbegin()", "*%s.crbegin()"):
                yes("element", inst, "std::is_same_v<std::remove_cvref_t<decltype(%s)>, %s>" % (q % val(C), X), "%s is no immutable handle" % q % "c")
            no("constant", inst, c, "create")
            no("constant", inst, c, "push_back", "const %s&" % X)
            no("constant", inst, c, "push_back", "const %s&" % M)
            base(no, "constant", inst, c)
        yes("constant", inst, "!std::is_assignable_v<const %s&, %s>" % (C, C), "can be assigned to")
        it = "decltype(%s.begin())" % val("const " + C)
        mit = "decltype(%s.begin())" % val(C)
        yes("element", inst, "!std::is_convertible_v<%s, %s>" % (it, mit), "constant iterators can be converted to mutable ones")
    for i in all_interfaces():
        X, e = "::" + i.rec(), i.edm
        for x in (X, "const " + X):
            for m in i.members:
                no("absent", i.full, x, e.setter(m.name), "const %s&" % mtype(m))
                yes("element", i.full, "vp_closed<decltype(%s.%s())>" % (val(x), e.getter(m.name, m.type)), "%s can be changed through its getter" % m.name)
        for t in i.types:
            yes("element", i.full, "vp_closed<decltype(%s.template as<::%s>())>" % (val("const " + X), t), "the wrapped handle can be changed")
            mt = i.edm.datatype(t).mut
            yes("convert", i.full, "!std::is_constructible_v<::%s, %s> && !std::is_constructible_v<::%s, const %s&>" % (mt, X, mt, X),
                "a mutable handle can be made from an interface")
    for h, m in handle_recs(prog):
        if not h.startswith("podio::LinkT<"):
            continue
        a = split_args(h)
        f, t = "::" + a[0], "::" + a[1]
        X, M = "podio::Link<%s, %s>" % (f, t), "podio::MutableLink<%s, %s>" % (f, t)
        C = "podio::LinkCollection<%s, %s>" % (f, t)
        for s in ("%s", "const %s&", "%s&"):
            yes("convert", h, "!std::is_constructible_v<%s, %s> && !std::is_convertible_v<%s, %s> && !std::is_assignable_v<%s&, %s>" % (M, s % X, s % X, M, M, s % X),
                "a mutable link can be made from an immutable one")
        for s in ("%s*", "podio::utils::MaybeSharedPtr<%s>"):
            yes("convert", h, "!std::is_constructible_v<%s, %s>" % (M, s % ("podio::LinkObj<%s, %s>" % (f, t))), "a mutable link can be made from an object")
        for x in (X, "const " + X):
            no("absent", h, x, "setWeight", "float")
            for q in (f, t) + tuple("::" + z for d in all_datatypes() for z in (d.handle, d.mut)):
                no("absent", h, x, "setFrom", q)
                no("absent", h, x, "setTo", q)
                no("absent", h, x, "set", q)
            yes("element", h, "std::is_same_v<std::remove_cvref_t<decltype(%s.getFrom())>, %s> && vp_closed<decltype(%s.getFrom())>" % (val(x), f, val(x)), "getFrom can be changed")
            yes("element", h, "std::is_same_v<std::remove_cvref_t<decltype(%s.getTo())>, %s> && vp_closed<decltype(%s.getTo())>" % (val(x), t, val(x)), "getTo can be changed")
            yes("element", h, "vp_closed<decltype(%s.getWeight())>" % val(x), "the weight can be changed")
            for k, q in enumerate((f, t, "float")):
                yes("element", h, "std::is_same_v<std::remove_cvref_t<decltype(%s.template get<%d>())>, %s> && vp_closed<decltype(%s.template get<%d>())>" % (val(x), k, q, val(x), k), "get<%d> can be changed" % k)
        c = "const " + C
        for q in ("%s[0]", "%s.at(0)", "*%s.begin()", "*%s.cbegin()", "*%s.rbegin()", "*%s.crbegin()", "*(--%s.end())", "*%s.begin().operator->()"):
            yes("element", h, "std::is_same_v<std::remove_cvref_t<decltype(%s)>, %s>" % (q % val(c), X), "%s is no immutable link" % q % "c")
        yes("element", h, "!std::is_convertible_v<decltype(%s.begin()), decltype(%s.begin())>" % (val(c), val(C)), "constant iterators can be converted to mutable ones")
        no("constant", h, c, "create")
        no("constant", h, c, "push_back", "const %s&" % X)
        no("constant", h, c, "push_back", "const %s&" % M)
        base(no, "constant", h, c)
    for t in ("float", "double", "int", "int8_t", "uint64_t"):
        c = "podio::UserDataCollection<%s>" % t
        for q in ("%s[0]", "%s.at(0)", "*%s.begin()", "*%s.end()", "*%s.vec().begin()", "%s.vec()"):
            yes("element", c, "vp_closed<decltype(%s)>" % (q % val("const " + c)), "%s can be changed" % q % "c")
        no("constant", c, "const " + c, "resize", "std::size_t")
        no("constant", c, "const " + c, "push_back", "const %s&" % t)
        base(no, "constant", c, "const " + c)
    base(no, "constant", "CollectionBase", "const podio::CollectionBase")
    F_ = "podio::Frame"
    for dt in all_datatypes()[:4]:
        C = "::" + dt.coll
        for fr in ("const " + F_ + "&", F_ + "&"):
            yes("constant", "Frame", "vp_closed<decltype(%s.template get<%s>(\"\"))> && std::is_lvalue_reference_v<decltype(%s.template get<%s>(\"\"))> || "
                "!std::is_reference_v<decltype(%s.template get<%s>(\"\"))>" % (val(fr, ""), C, val(fr, ""), C, val(fr, ""), C), "collections of a frame can be changed")
        yes("constant", "Frame", "vp_closed<decltype(%s.put(%s, \"\"))>" % (val(F_), val(C, "&&")), "collections can be changed after they were put into a frame")
        no("constant", "Frame", "const " + F_, "put", C + "&&", "std::string")
        no("constant", "Frame", F_, "put", C + "&", "std::string")
    for fr in ("const " + F_ + "&", F_ + "&"):
        yes("constant", "Frame", "vp_const_ptr<decltype(%s.get(\"\"))>" % val(fr, ""), "collections of a frame can be changed")
        yes("constant", "Frame", "vp_const_ptr<decltype(%s.getCollectionForWrite(\"\"))>" % val(fr, ""), "collections of a frame can be changed")
        yes("constant", "Frame", "vp_closed<decltype(%s.getParameters())>" % val(fr, ""), "parameters can be changed through their getter")
    no("constant", "Frame", "const " + F_, "put", "std::unique_ptr<podio::CollectionBase>", "std::string")
    for t in ("int", "float", "double", "std::string"):
        for q in (t, "std::vector<%s>" % t):
            no("constant", "Frame", "const " + F_, "putParameter", "std::string", q)
            no("constant", "GenericParameters", "const podio::GenericParameters", "set", "std::string", q)
    no("constant", "GenericParameters", "const podio::GenericParameters", "clear")
    no("constant", "GenericParameters", "const podio::GenericParameters", "loadFrom", "std::vector<std::string>", "std::vector<std::vector<int>>")
    pre = PRELUDE + "".join("template <typename T, typename... A>\nconcept vp_can_%s = requires(T& t, A&&... a) { t.%s(std::forward<A>(a)...); };\n" % (n, n) for n in sorted(names))
    for rule, its in items.items():
        witness.decide(ck, rule, its, LOADED, pre, strict=False)


def base(no, rule, inst, c):
    no(rule, inst, c, "setID", "uint32_t")
    no(rule, inst, c, "clear")
    no(rule, inst, c, "setSubsetCollection", "bool")
    no(rule, inst, c, "prepareAfterRead")
    no(rule, inst, c, "setReferences", "const podio::ICollectionProvider*")
    no(rule, inst, c, "getBuffers")


def etype(m):
    return m.type if m.type in BUILTINS else "::" + m.type


def mtype(m):
    return "std::array<%s, %d>" % (etype(m), m.n) if m.array else etype(m)
