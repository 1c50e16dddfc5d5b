"""Facts about the cover models (taken from the model definitions, which are
the specification) and roles of the generated C++ entities (found through
their public interface)"""
import os
import re

import yaml

from . import frontend
from .frontend import AnalysisError
from .sem import *

BUILTINS = {"bool", "char", "short", "int", "long", "long long", "unsigned int", "unsigned", "unsigned long",
            "unsigned long long", "float", "double", "int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t",
            "uint64_t", "std::int16_t", "std::int32_t", "std::int64_t", "std::uint16_t", "std::uint32_t",
            "std::uint64_t"}
MEMBER = re.compile(r"^\s*(std::array\s*<\s*(?P<at>[^,]+?)\s*,\s*(?P<n>\d+)\s*>|(?P<t>[A-Za-z_][A-Za-z0-9_:<> ]*?))\s+"
                    r"(?P<name>[A-Za-z_]\w*)\s*(\{(?P<init>[^}]*)\})?\s*(\[(?P<unit>[^\]]*)\])?\s*(//.*)?$")


class Member:
    def __init__(self, txt):
        m = MEMBER.match(txt)
        if not m:
            raise AnalysisError("cannot read member definition " + txt)
        self.name = m.group("name")
        self.array = m.group("n") is not None
        self.n = int(m.group("n")) if self.array else None
        self.type = (m.group("at") if self.array else m.group("t")).strip()
        self.init = m.group("init")

    @property
    def builtin(self):
        return self.type in BUILTINS

    def __repr__(self):
        return self.name


def split(full):
    ns, _, bare = full.rpartition("::")
    return ns, bare


def cap(s):
    return s[0].upper() + s[1:]


class Base:
    def __init__(self, edm, full):
        self.edm, self.full = edm, full
        self.ns, self.bare = split(full)

    def rec(self, pre="", post=""):
        n = pre + self.bare + post
        return (self.ns + "::" + n) if self.ns else n

    def __repr__(self):
        return self.full


class Component(Base):
    def __init__(self, edm, full, d):
        super().__init__(edm, full)
        self.members = [Member(x) for x in d["Members"]]


class Datatype(Base):
    def __init__(self, edm, full, d):
        super().__init__(edm, full)
        self.members = [Member(x) for x in d.get("Members", [])]
        self.vecs = [Member(x) for x in d.get("VectorMembers", [])]
        self.many = [Member(x) for x in d.get("OneToManyRelations", [])]
        self.ones = [Member(x) for x in d.get("OneToOneRelations", [])]
        self.handle, self.mut = self.rec(), self.rec("Mutable")
        self.obj, self.data = self.rec("", "Obj"), self.rec("", "Data")
        self.coll, self.colldata = self.rec("", "Collection"), self.rec("", "CollectionData")

    def submembers(self, m):
        """members of an (exposed) component member"""
        if not self.edm.expose or m.array or m.builtin:
            return []
        c = self.edm.component(m.type)
        return c.members if c else []


class Interface(Base):
    def __init__(self, edm, full, d):
        super().__init__(edm, full)
        self.members = [Member(x) for x in d.get("Members", [])]
        self.types = list(d["Types"])


class Link(Base):
    def __init__(self, edm, full, d):
        super().__init__(edm, full)
        self.frm, self.to = d["From"], d["To"]


class EDM:
    def __init__(self, name, upstream=None):
        self.name, self.upstream = name, upstream
        with open(os.path.join(frontend.MODELS, name + ".yaml")) as f:
            d = yaml.safe_load(f)
        o = d.get("options", {})
        self.get_syntax = bool(o.get("getSyntax"))
        self.expose = bool(o.get("exposePODMembers"))
        self.version = d.get("schema_version")
        self.components = [Component(self, k, v) for k, v in (d.get("components") or {}).items()]
        self.datatypes = [Datatype(self, k, v) for k, v in (d.get("datatypes") or {}).items()]
        self.interfaces = [Interface(self, k, v) for k, v in (d.get("interfaces") or {}).items()]
        self.links = [Link(self, k, v) for k, v in (d.get("links") or {}).items()]

    def component(self, full):
        for c in self.components:
            if c.full == full.lstrip(":"):
                return c
        return self.upstream.component(full) if self.upstream else None

    def interface(self, full):
        for c in self.interfaces:
            if c.full == full:
                return c
        return self.upstream.interface(full) if self.upstream else None

    def datatype(self, full):
        for c in self.datatypes:
            if c.full == full:
                return c
        return self.upstream.datatype(full) if self.upstream else None

    def getter(self, name, typ=""):
        if not self.get_syntax:
            return name
        return "get" + cap(name)

    def setter(self, name):
        return "set" + cap(name) if self.get_syntax else name

    def adder(self, name):
        return "addTo" + cap(name) if self.get_syntax else "add" + name


LOADED = ["cover"]   # the models that a check analyses


def all_models():
    return [cover() if m == "cover" else ext() for m in LOADED]


def all_interfaces():
    return [i for m in all_models() for i in m.interfaces]


def cover():
    return EDM("cover")


def ext():
    return EDM("ext", cover())


# --------------------------------------------------------------------- roles
def obj_field(prog, rec):
    """the shared pointer that a handle consists of"""
    r = prog.recs.get(rec)
    if r is None:
        raise AnalysisError("no record " + rec)
    fs = [f["n"] for f in r["fields"] if "MaybeSharedPtr<" in f["t"]]
    if len(fs) != 1:
        raise AnalysisError("%s has no unique object pointer" % rec)
    return fs[0]


def pointee(prog, rec):
    r = prog.recs[rec]
    t = [f["t"] for f in r["fields"] if "MaybeSharedPtr<" in f["t"]][0]
    return t[t.index("MaybeSharedPtr<") + 15:].rstrip()[:-1].strip()


def id_field(prog, obj):
    """the member of an object that holds its identity"""
    fs = [f["n"] for f in prog.recs[obj]["fields"] if f["t"].replace("const ", "") == "podio::ObjectID"]
    if len(fs) != 1:
        raise AnalysisError("%s has no unique ObjectID" % obj)
    return fs[0]


class Coll:
    """Roles of the members of one collection type (generated or link)"""

    def __init__(self, ck, rec):
        self.ck, self.prog, self.rec = ck, ck._prog, rec
        if rec not in self.prog.recs:
            raise AnalysisError("no collection " + rec)
        self.fns = self.prog.by_rec[rec]
        sub = field_of(ck, self.m("isSubsetCollection", 0))
        self.subset = sub[1] if sub[0] == "nz" else sub
        self.id = field_of(ck, self.m("getID", 0))
        sz = field_of(ck, self.m("size", 0))
        if sz[0] != "size":
            raise AnalysisError("%s::size() is not the size of a container" % rec)
        self.entries = sz[1]
        self.at = method(self.prog, rec, "at", 1, const=True)
        self.handle = self.at.rt
        # handle and object types
        o = self.ck.outs(self.at, opaque=None)
        rets = [x for x in o if x.kind == "ret"]
        self.hfield = obj_field(self.prog, self.handle)
        self.obj = pointee(self.prog, self.handle)
        self.idf = id_field(self.prog, self.obj)
        # the record that holds the elements and all buffers
        self.storage, self.storage_rec = THIS, rec
        t = self.entries[1]
        if t != THIS and t[0] == "f" and t[1] == THIS:
            self.storage = t
            self.storage_rec = next(f["t"] for f in self.prog.recs[rec]["fields"] if f["n"] == t[2])

    def m(self, name, n=None, **kw):
        return method(self.prog, self.rec, name, n, **kw)

    def ms(self, name, n=None, **kw):
        return methods(self.prog, self.rec, name, n, **kw)

    def sub(self, o):
        """is the collection a subset on this path (None: not looked at)"""
        for a in (("nz", self.subset), self.subset):
            if o.tests.get(a) is not None:
                return o.tests[a]
        v = [possible(o, {self.subset: i}) for i in (0, 1)]
        return None if v == [True, True] else v[1]

    def objid(self, ptr):
        return F(deref(ptr), self.idf)

    def is_entry_add(self, e):
        return e.kind in ("push_back", "emplace_back") and e.loc == self.entries


def all_colls(ck, models=()):
    """every collection type of the cover model(s) and every link collection"""
    out = []
    for mname in models or LOADED:
        e = EDM(mname) if mname == "cover" else ext()
        for d in e.datatypes:
            out.append(Coll(ck, d.coll))
    for r in sorted(ck._prog.recs):
        if r and r.startswith("podio::LinkCollection<") and methods(ck._prog, r, "at") and methods(ck._prog, r, "push_back"):
            out.append(Coll(ck, r))
    return out


# --------------------------------------------- small domain reasoning on tests
def holds(atom, env):
    """truth of an atom under an assignment of terms to integers (None: open)"""
    def ev(t):
        if t in env:
            return env[t]
        if is_c(t) and isinstance(t[1], (int, bool)):
            return int(t[1])
        if t[0] in ("add", "sub") and len(t) == 3:
            a, b = ev(t[1]), ev(t[2])
            return None if a is None or b is None else (a + b if t[0] == "add" else a - b)
        return None
    k = atom[0]
    if k == "not":
        v = holds(atom[1], env)
        return None if v is None else not v
    if k in ("and", "or"):
        vs = [holds(x, env) for x in atom[1:]]
        if k == "and":
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if k == "nz":
        v = ev(atom[1])
        return None if v is None else v != 0
    if k in ("eq", "lt", "le") and len(atom) == 3:
        a, b = ev(atom[1]), ev(atom[2])
        if a is None or b is None:
            return None
        return {"eq": a == b, "lt": a < b, "le": a <= b}[k]
    v = ev(atom)
    return None if v is None else v != 0


def possible(o, env):
    """can the path be taken under the assignment; unknown tests count as yes"""
    for a, v in o.tests.items():
        h = holds(a, env)
        if h is not None and h != v:
            return False
    return True


# --------------------------------------------------------------------- loops
def inds(t):
    """loop indices in a term"""
    return [x for x in subterms(t) if x[0] == "ind"]


def loop_range(o, ind):
    """(first, bound) of the values that a loop index takes on a path, where
    the loop continues until bound is reached; None if that is not known"""
    L = ind[1]
    for e in o.events:
        if e[0] == "range" and e[1] == L:
            return ind[2], e[4]
    lo = ind[2]
    for e in o.events:
        if e[0] != "br" or len(e) < 5 or not e[4]:
            continue
        a = e[1]
        if a[0] == "eq" and ind in a[1:]:
            return lo, a[1] if a[2] == ind else a[2]
        if a[0] == "lt" and a[1] == ind:
            return lo, a[2]
        if a[0] == "eq":
            # iterator comparisons
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == "it" and x[2] == ind and y[0] == "it" and y[1] == x[1]:
                    return lo, y[2]
    return None


def whole(o, cont, idx):
    """does idx run over all elements of cont on this path"""
    if idx[0] != "ind":
        return False
    r = loop_range(o, idx)
    if r is None:
        return False
    lo, hi = r
    step = idx[3] if len(idx) > 3 else 1
    size = lambda t: t[0] == "size" and t[1] == cont
    if not any(e[0] == "endloop" and e[1] == idx[1] for e in o.events):
        return False   # left early
    if step == 1:
        return lo == C(0) and size(hi)
    return False


def each(outs, cont, pred):
    """paths on which an effect that satisfies pred(element, effect) is done
    for every element of cont"""
    hit = []
    for o in outs:
        for e in effects(o):
            for t in (e.loc,) + tuple(x for x in e.args if isinstance(x, tuple)):
                for s in subterms(t):
                    if s[0] == "elem" and s[1] == cont and s[2][0] == "ind" and pred(s, e) and whole(o, cont, s[2]):
                        hit.append((o, e))
    return hit


def every(outs, cont, pred):
    """like each, plus the paths through the same loop that do not do it for
    an element that exists: (hits, misses)"""
    hit = each(outs, cont, pred)
    loops = set()
    for o, e in hit:
        for t in (e.loc,) + tuple(x for x in e.args if isinstance(x, tuple)):
            for s in subterms(t):
                if s[0] == "elem" and s[1] == cont and s[2][0] == "ind":
                    loops.add((s[2][1], s[2]))
    done = {id(o) for o, e in hit}
    miss = []
    for o in outs:
        if id(o) in done:
            continue
        for L, ind in loops:
            if ran(o, L, ind) and not null_elem(o, ("elem", cont, ind)):
                miss.append(o)
    return hit, miss


def ran(o, L, ind):
    """was the body of loop L entered on the path"""
    for e in o.events:
        if e[0] == "endloop" and e[1] == L:
            return True
        if e[0] == "br" and len(e) > 4 and e[4] and contains(e[1], ind):
            if (e[1][0] == "eq" and not e[2]) or (e[1][0] in ("lt", "le") and e[2]):
                return True
    return False


def null_elem(o, el):
    """the path is only taken if the element is a null pointer"""
    return o.tests.get(("nz", el)) is False


def is_uptr_vec(t):
    return t.startswith("std::unique_ptr<std::vector<")


def is_vec_uptr(t):
    return t.startswith("std::vector<std::unique_ptr<std::vector<")


class Storage:
    """Roles of the members of the storage of a collection"""

    def __init__(self, c):
        self.c = c
        rec = c.prog.recs[c.storage_rec]
        self.refs = self.vecinfo = self.data = None
        self.ptrs, self.tmps, self.other = [], [], []
        for f in rec["fields"]:
            loc, t = F(c.storage, f["n"]), f["t"]
            if loc == c.entries:
                continue
            if is_vec_uptr(t) and "podio::ObjectID" in t:
                self.refs = loc
            elif is_vec_uptr(t):
                self.tmps.append(loc)
            elif is_uptr_vec(t):
                inner = t[len("std::unique_ptr<std::vector<"):].split(",")[0].strip(" >")
                if inner.endswith("Data") and self.data is None and inner not in ():
                    self.data = loc
                else:
                    self.ptrs.append(loc)
            elif "std::pair<" in t and "void *" in t:
                self.vecinfo = loc
            else:
                self.other.append((loc, t))
        if self.refs is None or self.data is None:
            raise AnalysisError("cannot find the buffers of " + c.rec)

    def alive(self, val=True):
        """assumption that all buffers exist"""
        return tuple((("nz", p), val) for p in [self.data] + self.ptrs)


def cleared(o, loc):
    """is the content of the container loc removed on this path"""
    for e in effects(o):
        if e.loc == loc and e.kind in ("clear", "wr", "assign", "swap"):
            return True
        if e.loc == loc and e.kind == "resize" and e.args and e.args[0] == C(0):
            return True
        if e.loc == loc and e.kind == "erase" and len(e.args) == 2:
            return True
        # the owner of the container is given a new one
        if loc[0] == "deref" and e.loc == loc[1] and e.kind in ("wr", "reset"):
            return True
    return False


def linear(t):
    """(base, offset) of an integer term; base None for a constant"""
    off = 0
    while True:
        if is_c(t) and isinstance(t[1], int):
            return None, off + t[1]
        if t[0] == "add" and len(t) == 3:
            if is_c(t[2]):
                off, t = off + t[2][1], t[1]
                continue
            if is_c(t[1]):
                off, t = off + t[1][1], t[2]
                continue
        if t[0] == "sub" and len(t) == 3 and is_c(t[2]):
            off, t = off - t[2][1], t[1]
            continue
        if t[0] in ("cast",) and len(t) >= 2:
            t = t[-1]
            continue
        return t, off


def new_position(c, o, idx, add):
    """is idx the position of the element that the effect add appended (the
    only change of the entries on the path)"""
    if inds(idx):
        return False
    b, off = linear(idx)
    if b is None or b[0] != "size" or b[1] != c.entries:
        return False
    # sizes that were looked at after the element was added count one more
    return off == (0 if len(b) == 2 else -b[2])


def all_datatypes(*models):
    out = []
    for m in models or LOADED:
        out += (cover() if m == "cover" else ext()).datatypes
    return out


def link_recs(prog, name):
    """instances of a link template (podio::<name><...>)"""
    return sorted(r for r in prog.recs if r and r.startswith("podio::%s<" % name) and prog.by_rec.get(r))


def handle_recs(prog):
    """(immutable handle, mutable handle) of every datatype and link"""
    out = [(d.handle, d.mut) for d in all_datatypes()]
    ls = link_recs(prog, "LinkT")
    for r in ls:
        if r.endswith(", false>") and r[:-6] + "true>" in ls:
            out.append((r, r[:-6] + "true>"))
    return out


# ------------------------------------------------------------------- identity
def concept_field(prog, rec):
    """the pointer to the wrapped value that an interface handle consists of"""
    r = prog.recs.get(rec)
    fs = [f["n"] for f in r["fields"] if "unique_ptr<" in f["t"] and "Concept" in f["t"]] if r else []
    return fs[0] if len(fs) == 1 else None


def smart(o, loc):
    """the object that the owning or plain pointer of a handle points to"""
    parts = {}
    for e in o.events:
        if e[0] == "wr" and e[1][0] == "f" and e[1][1] == loc:
            parts[e[1][2]] = e[2]
        elif e[0] == "wr" and e[1] == loc:
            parts = {}
    if not parts:
        return o.load(loc)
    src = {v[1] if v[0] == "f" and v[2] == k else None for k, v in parts.items()}
    if len(src) == 1 and None not in src and len(parts) > 1:
        return src.pop()
    return ("mix", loc) + tuple(sorted(parts.items()))


def strip_type(t):
    t = t.strip()
    while t.endswith("&") or t.endswith("*"):
        t = t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    return t.strip()


def ident(o, prog, v, rec):
    """the identity of the object that the handle or interface v (of type
    rec) refers to on a path: a pointer term, NULL if there is none"""
    for _ in range(8):
        if v is None:
            return None
        if v[0] == "obj":
            rec = v[2]
        cf = concept_field(prog, rec)
        if cf is None:
            return smart(o, F(v, obj_field(prog, rec)))
        w = o.load(F(v, cf))
        # copies of the wrapped value
        while w[0] == "call" and w[1].endswith("::clone") and w[2] is not None and (w[2][0] in ("deref", "obj")):
            w = w[2][1] if w[2][0] == "deref" else ("addr", w[2])
        if w[0] == "addr" and w[1][0] == "obj" and "Model<" in w[1][2]:
            val = [f for f in prog.recs[w[1][2]]["fields"]]
            if len(val) != 1:
                return None
            u = o.load(F(w[1], val[0]["n"]))
            v, rec = (u if u[0] == "obj" else F(w[1], val[0]["n"])), strip_type(val[0]["t"])
            continue
        return w
    return None


def record_parts(o, prog, v):
    """the values of the parts of a record that is made of two values"""
    if v[0] in ("ctor",) and len(v[2]) == 2:
        return v[2]
    if v[0] == "agg" and len(v[2]) == 2:
        return tuple(x[1] for x in v[2])
    if v[0] == "obj" and v[2] in prog.recs and len(prog.recs[v[2]]["fields"]) == 2:
        return tuple(o.load(F(v, f["n"])) for f in prog.recs[v[2]]["fields"])
    if v[0] == "obj":
        w = o.load(v)
        return record_parts(o, prog, w) if w != v else None
    return None


def iter_whole(o, entries, el):
    """does the element el of an iterator object run over all of entries"""
    if el[0] != "elem":
        return False
    if el[1] == entries:
        return whole(o, entries, el[2])
    col, ix = el[1], el[2]
    if col[0] != "deref" or col[1][0] != "f" or ix[0] != "f" or ix[1] != col[1][1] or ix[1][0] != "ind":
        return False
    I = ix[1]
    L, obj = I[1], I[2]
    init, inc, inside, bound, ended = {}, [], False, None, False
    for e in o.events:
        if e[0] == "loop" and e[1] == L:
            inside = True
        elif e[0] == "endloop" and e[1] == L:
            ended, inside = True, False
        elif e[0] == "wr" and e[1][0] == "f" and e[1][1] == obj:
            if inside:
                if e[1][2] in (ix[2], col[1][2]):
                    inc.append((e[1][2], e[2]))
            elif not ended:
                init[e[1][2]] = e[2]
        elif e[0] == "br" and len(e) > 4 and e[4] and inside and e[1][0] == "eq" and ix in e[1][1:]:
            bound = e[1][1] if e[1][2] == ix else e[1][2]
    return (ended and init.get(ix[2]) == C(0) and init.get(col[1][2]) == ("addr", entries) and
            bound is not None and bound[0] == "size" and bound[1] == entries and inc == [(ix[2], ("add", ix, C(1)))])
