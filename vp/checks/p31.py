"""P31: text and JSON output show every declared field

The paths of every printing function are turned into the sequence of texts and
values that it puts into the stream (or of keys and values that it puts into
the JSON object), which is compared with the declaration of the type."""
import re

from ..edm import *

IDS = ("id", "getObjectID")
STICKY = ("std::hex", "std::oct", "std::dec", "std::fixed", "std::scientific", "std::showpos", "std::noshowpos",
          "std::left", "std::right", "std::internal", "std::boolalpha", "std::noboolalpha", "std::uppercase",
          "std::showbase", "std::showpoint", "std::setiosflags", "std::defaultfloat", "std::hexfloat")


# ------------------------------------------------------------------ exploring
def accessors(prog):
    """what is not looked into: accessors of the values and printing of other values"""
    def opaque(f):
        if f["n"] in ("operator<<", "to_json"):
            return True
        if any(("basic_ostream<" in t or "basic_json<" in t) and t.endswith("&") and not t.startswith("const ")
               for t in f.get("pt") or ()):
            return False
        if f["n"] == "operator()":
            return False
        return bool(f.get("rec"))
    return opaque


def printers(f):
    return f["n"] in ("operator<<", "to_json")


def paths(ck, fn, opaque=None, **kw):
    outs = ck.outs(fn, once=True, opaque=opaque or accessors(ck._prog), okey=opaque.__name__ if opaque else "p31", **kw)
    rets = [o for o in outs if o.kind in ("ret", "end")]
    if not rets:
        raise AnalysisError("%r never returns" % fn)
    return rets


def short(q):
    return q.split("::")[-1]


def stream_of(t):
    """the stream at the beginning of a chain of insertions"""
    for _ in range(2000):
        if t is None:
            return None
        if t[0] == "out":
            t = t[1][3][t[2]] if t[1][0] == "call" and t[2] < len(t[1][3]) else None
        elif t[0] == "call" and short(t[1]) in ("operator<<", "put", "write", "flush", "operator*"):
            t = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
        elif t[0] in ("deref", "addr"):
            t = t[1]
        else:
            return t
    return None


class Tok:
    __slots__ = ("kind", "v", "q", "pos", "stream")

    def __init__(self, kind, v, q, pos, stream):
        self.kind, self.v, self.q, self.pos, self.stream = kind, v, q, pos, stream

    def __repr__(self):
        return "%s %s" % (self.kind, self.v if self.kind != "val" else show(self.v))


def tokens(o):
    """what the path puts into streams, in order"""
    out = []
    for i, e in enumerate(o.events):
        if e[0] != "call":
            continue
        nm = short(e[1])
        if nm == "operator<<" and (e[2] is not None or len(e[3]) == 2):
            s = stream_of(e[2] if e[2] is not None else e[3][0])
            v = e[3][-1]
            out += token(v, e[1], i, s)
        elif nm in ("put", "write") and e[2] is not None and "stream" in e[1]:
            out += token(e[3][0], "std::operator<<", i, stream_of(e[2]))
        elif nm in ("flags", "setf", "unsetf", "precision", "copyfmt") and e[2] is not None and ("ios" in e[1] or "stream" in e[1]):
            out.append(Tok(nm if e[3] else "get" + nm, (e[3], e[4]), e[1], i, stream_of(e[2])))
    # string streams that are printed as a whole
    res = []
    for t in out:
        if t.kind == "val" and t.v[0] == "call" and short(t.v[1]) == "str" and t.v[2] is not None:
            sub = [x for x in out if x.stream == stream_of(t.v[2]) and x.pos < t.pos]
            res += [Tok(x.kind, x.v, x.q, x.pos, t.stream) for x in sub]
        else:
            res.append(t)
    return [t for t in res if t.stream is None or t.stream[0] in ("par", "g", "f", "deref", "this")] or res


def token(v, q, pos, s):
    if v[0] == "fn":
        n = v[-1]
        if n in ("std::endl",):
            return [Tok("lit", "\n", q, pos, s)]
        return [Tok("man", n, q, pos, s)]
    if v[0] == "call" and v[1].startswith("std::set"):
        return [Tok("man", v[1], q, pos, s)]
    if is_c(v):
        if isinstance(v[1], str):
            x = v[1]
            if x.startswith("str:"):
                return [Tok("lit", x[4:], q, pos, s)]
            return [Tok("val", v, q, pos, s)]
        if q == "std::operator<<" and isinstance(v[1], int):
            return [Tok("lit", chr(v[1] & 0xff), q, pos, s)]
        return [Tok("lit", str(v[1]), q, pos, s)]
    return [Tok("val", v, q, pos, s)]


def lines_of(toks):
    """[(value token, text in front of it on the same line)]"""
    text, out = "", []
    for t in toks:
        if t.kind == "lit":
            for ch in t.v:
                text = "" if ch == "\n" else text + ch
        elif t.kind == "val":
            out.append((t, text))
    return out


def label(text):
    ws = re.findall(r"[A-Za-z_]\w*", text)
    return ws[-1] if ws else None


# ---------------------------------------------------------------- the fields
class Field:
    """a declared field of a printed type"""
    def __init__(self, name, calls, kind, n=None, size=(), fld=None, own=False):
        self.name, self.calls, self.kind, self.n, self.size, self.fld = name, set(calls), kind, n, set(size), fld
        self.own = own          # the relation leads to objects of the printed type itself

    def __repr__(self):
        return self.name


def fields_of(dt):
    out = []
    for m in dt.members:
        out.append(Field(m.name, [dt.edm.getter(m.name)], "array" if m.array else "value", m.n))
    for m in dt.ones:
        out.append(Field(m.name, [dt.edm.getter(m.name)], "one"))
    for k, ms in (("many", dt.many), ("vec", dt.vecs)):
        for m in ms:
            out.append(Field(m.name, [dt.edm.getter(m.name), m.name + "_begin", m.name + "_end"], k, None, [m.name + "_size"],
                             own=k == "many" and m.type.strip(":") == dt.full.strip(":")))
    return out


TEXT = "the text of an object"
LINK = [Field("weight", ["getWeight"], "value"), Field("from", ["getFrom"], "one"), Field("to", ["getTo"], "one")]


def mentions(v, fields, base):
    """(field, access term) of everything in v that belongs to the object base"""
    out = []
    for t in subterms(v):
        if t[0] == "call" and t[2] is not None and t[2] == base:
            nm = short(t[1])
            for f in fields:
                if nm in f.calls or nm in f.size:
                    out.append((f, t))
        elif t[0] == "f" and t[1] == base:
            for f in fields:
                if f.fld == t[2]:
                    out.append((f, t))
    return out


def distinct(ms):
    return {f.name: f for f, t in ms}


def by_id(v, acc):
    return any(t[0] == "call" and short(t[1]) in IDS and t[2] is not None and contains(t[2], acc) for t in subterms(v))


def plain(t):
    while not (t[0] == "narrow" and re.search(r"char|short|int(8|16)|bool", str(t[1]))) and t[0] in ("narrow", "conv", "cast", "wrap") and len(t) > 1:
        t = t[-1]
    return t


def extent(o, v, f, base):
    """do the loops around v run over all elements of the field"""
    ix = [x for x in inds(v) if not (base is not None and contains(base, x))]
    if not ix:
        return "whole"
    for ind in ix:
        r = loop_range(o, ind)
        if r is None or (len(ind) > 3 and ind[3] != 1):
            return None
        if not any(e[0] == "endloop" and e[1] == ind[1] for e in o.events):
            return None
        lo, hi = plain(r[0]), plain(r[1])
        if lo == C(0):
            if f.n is not None and hi == C(f.n):
                continue
            if hi[0] == "call" and (short(hi[1]) in f.size and hi[2] == base or short(hi[1]) == "size" and
                                    distinct(mentions(hi, [f], base))):
                continue
            if hi[0] == "size" and distinct(mentions(hi, [f], base)):
                continue
            return None
        if lo[0] == "call" and hi[0] == "call" and "begin" in short(lo[1]).lower() and "end" in short(hi[1]).lower() \
                and distinct(mentions(lo, [f], base)) and distinct(mentions(hi, [f], base)):
            continue
        return None
    return "all"


def shown(ck, rule, inst, o, f, base, vals, fields, where, what):
    """field f is what exactly one of the values [(value, key)] shows"""
    hits = [(v, k) for v, k in vals if f.name in distinct([m for m in mentions(v, fields, base) if short_of(m[1]) not in m[0].size])]
    if not ck.ob(rule, inst, len(hits) == 1, "%s is %s %s" % (f, "not part of" if not hits else "%d times in" % len(hits), what), where):
        return
    v, k = hits[0]
    ms = [m for m in mentions(v, fields, base) if short_of(m[1]) not in m[0].size]
    ok = set(distinct(ms)) == {f.name}
    ck.ob(rule, inst, ok, "%s is mixed up with %s in %s" % (f, sorted(distinct(ms)), what), where)
    if k is not None:
        ck.ob("names", inst, k == f.name, "%s appears under the name %s in %s" % (f, k, what), where)
    if f.kind == "one" or f.kind == "many" and (f.own or what != TEXT):
        ck.ob("relations", inst, all(by_id(v, t) for _, t in ms),
              "the related object of %s is not shown by its ID in %s" % (f, what), where)
    if f.kind in ("array", "many", "vec"):
        ex = extent(o, v, f, base)
        acc = ms[0][1]
        if ex == "whole" and f.kind == "many":
            ex = None
        if ex == "whole" and acc[0] == "call" and acc[3]:
            ex = None          # a fixed element
        if ex == "whole" and any(t[0] == "elem" and contains(t[1], acc) for t in subterms(v)):
            ex = None
        ck.ob("extent", inst, ex is not None, "%s does not show all elements of %s" % (what, f), where)


def short_of(t):
    return short(t[1]) if t[0] == "call" else None


# ---------------------------------------------------------------------- text
def restored(ck, fn, o, toks, inst):
    cur, saved, touched = "orig", {}, False
    for t in toks:
        if t.kind in ("getflags", "flags", "setf"):
            saved[t.v[1]] = cur          # the flags before
        if t.kind == "man" and t.v in STICKY or t.kind in ("setf", "unsetf"):
            cur, touched = "changed", True
        elif t.kind == "flags":
            cur, touched = saved.get(t.v[0][0], "changed"), True
    if touched:
        ck.ob("format", inst, cur == "orig", "printing changes the format flags of the stream for good", fn.loc)


def fn_with(prog, name, ptype):
    """the function <name>(stream or json, const ptype&)"""
    out = []
    for f in prog.funcs.values():
        if f.name == name and len(f.params) == 2 and f.kind in ("func", "method"):
            if strip_type(f.params[1]["t"]) == ptype:
                out.append(f)
    return out


def obj_text(ck, prog, name, rec, fields):
    fns = fn_with(prog, "operator<<", rec)
    if not fns:
        return 0
    for fn in fns[:1]:
        base = par(fn, 1)
        n = 0
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            toks = tokens(o)
            restored(ck, fn, o, toks, name)
            vals = lines_of(toks)
            av = [v for a, v in o.tests.items() if a[0] == "nz" and a[1][0] == "call" and short(a[1][1]) == "isAvailable" and
                  a[1][2] == base]
            if av and not av[0]:
                used = [t for t, _ in vals if contains(t.v, base)]
                ck.ob("null", name, not used, "accesses %s of an object that does not exist" % used, w)
                ck.ob("null", name, any(t.kind == "lit" and t.v.strip() for t in toks), "an empty handle is shown as nothing", w)
                continue
            n += 1
            ck.ob("null", name, bool(av), "prints without asking whether there is an object", w)
            vs = [(t.v, label(x)) for t, x in vals]
            for f in fields:
                shown(ck, "text", "%s of %s" % (f, name), o, f, base, vs, fields, w, TEXT)
            ids = [k for v, k in vs if v[0] == "call" and short(v[1]) in IDS and v[2] == base]
            ck.ob("text", "id of " + name, ids == ["id"], "the ID is not shown exactly once", w)
        ck.ob("text", name, n > 0, "an existing object is never printed", fn.loc)
    return len(fns)


def iterates(o, base, coll):
    """does base run over all elements of the collection coll"""
    if base[0] == "call" and short(base[1]) in ("operator[]", "at") and base[2] == coll and base[3] and base[3][0][0] == "ind":
        r = loop_range(o, base[3][0])
        return (r is not None and r[0] == C(0) and plain(r[1])[0] == "call" and short(plain(r[1])[1]) == "size" and
                plain(r[1])[2] == coll and any(e[0] == "endloop" and e[1] == base[3][0][1] for e in o.events))
    if base[0] == "deref" or base[0] == "call" and short(base[1]) in ("operator*", "operator->"):
        it = base[2] if base[0] == "call" else base[1]
        st, L, inc, cmp_ = None, None, 0, False
        began = ended = False
        for e in o.events:
            if e[0] == "call" and short(e[1]) in ("begin", "cbegin") and e[2] == coll:
                began = True
            elif e[0] == "loop" and L is None and began:
                L = e[1]
            elif L is not None and e[0] == "call" and short(e[1]) == "operator++" and e[2] == it and not ended:
                inc += 1
            elif L is not None and not ended and e[0] == "br" and not e[2] and e[1][0] == "nz" and e[1][1][0] == "call" and \
                    short(e[1][1][1]) == "operator==":
                c = e[1][1]
                both = (c[2],) + tuple(c[3])
                cmp_ = cmp_ or (it in both and any(x[0] == "call" and short(x[1]) in ("end", "cend") and x[2] == coll
                                                   for x in both if x))
            elif e[0] == "br" and L is not None and not ended and e[2] and e[1][0] == "nz" and e[1][1][0] == "call" and \
                    short(e[1][1][1]) == "operator!=":
                c = e[1][1]
                both = (c[2],) + tuple(c[3])
                cmp_ = cmp_ or (it in both and any(x[0] == "call" and short(x[1]) in ("end", "cend") and x[2] == coll
                                                   for x in both if x))
            elif e[0] == "endloop" and e[1] == L:
                ended = True
        return began and ended and inc == 1 and cmp_
    return False


def bases_in(vals, fields, coll):
    """the elements of the collection that are mentioned"""
    names = set(IDS)
    for f in fields:
        names |= f.calls
    out = []
    for v in vals:
        for t in subterms(v):
            if t[0] == "call" and t[2] is not None and short(t[1]) in names and is_element(t[2], coll) and t[2] not in out:
                out.append(t[2])
    return out


def is_element(t, coll):
    if t[0] == "call" and short(t[1]) in ("operator[]", "at"):
        return t[2] == coll
    if t[0] == "call" and short(t[1]) in ("operator*", "operator->"):
        return "Iterator" in t[1]
    return t[0] == "deref" and t[1][0] == "call" and "Iterator" in t[1][1]


def coll_text(ck, prog, name, rec, fields, columns):
    """columns: fields that are part of the table"""
    fns = fn_with(prog, "operator<<", rec)
    for fn in fns[:1]:
        coll = par(fn, 1)
        n = 0
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            toks = tokens(o)
            restored(ck, fn, o, toks, name)
            vals = lines_of(toks)
            bs = bases_in([t.v for t, _ in vals], fields, coll)
            if not bs:
                ck.ob("rows", name, not ran_any(o), "there are elements, but none is printed", w)
                continue
            n += 1
            if not ck.ob("rows", name, len(bs) == 1 and iterates(o, bs[0], coll), "does not print every element once", w):
                continue
            base = bs[0]
            # the table
            head, rows, cols = "", [], []
            seen = False
            for t in toks:
                if t.kind == "lit" and not seen:
                    head += t.v
                elif t.kind == "val":
                    seen = True
                    rows.append(t.v)
                elif t.kind == "lit" and seen and "\n" in t.v:
                    break
            head = [re.findall(r"[A-Za-z_]\w*", x.split("[")[0])[-1:] for x in head.split("\n")[0].split(":") if x.strip()]
            head = [h[0] for h in head if h]
            for v in rows:
                ms = distinct(mentions(v, fields, base))
                if len(ms) == 1:
                    cols.append(list(ms)[0])
                elif v[0] == "call" and short(v[1]) in IDS and v[2] == base:
                    cols.append("id")
                else:
                    cols.append("?")
            want = ["id"] + [f.name for f in columns]
            ck.ob("columns", name, cols == head, "the columns are titled %s, but show %s" % (head, cols), w)
            ck.ob("columns", name, sorted(cols) == sorted(want), "the columns show %s, not %s" % (cols, want), w)
            vs = [(t.v, None if any(t.v is r for r in rows) else label(x)) for t, x in vals]
            for f in fields:
                if f.kind == "array" and f not in columns:
                    continue
                shown(ck, "table", "%s of %s" % (f, name), o, f, base, vs, fields, w, "the text of a collection")
        ck.ob("rows", name, n > 0, "elements are never printed", fn.loc)
    return len(fns)


def ran_any(o):
    return any(e[0] == "endloop" for e in o.events)


def print_method(ck, prog, name, rec):
    """print(stream) shows the collection and flushes the stream if wanted"""
    ms = [m for m in methods(prog, rec, "print") if m.params and "basic_ostream<" in m.params[0]["t"]]
    for fn in ms:
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            vals = [t for t in tokens(o) if t.kind == "val"]
            ok = len(vals) == 1 and vals[0].v in (THIS, deref(THIS), ("deref", THIS)) and vals[0].stream == par(fn, 0)
            ck.ob("print", name, ok, "prints %s instead of the collection" % vals, w)
            flush(ck, fn, o, name, w)
    return len(ms)


def flush(ck, fn, o, name, w):
    if len(fn.params) < 2:
        return
    fl = par(fn, 1)
    want = cond(o, ("nz", fl))
    did = any(e[0] == "call" and short(e[1]) == "flush" and e[2] is not None and stream_of(e[2]) == par(fn, 0) for e in o.events)
    did = did or any(t.kind == "man" and t.v == "std::flush" for t in tokens(o))
    ck.ob("print", name + " flush", did if want else True, "does not flush although asked to", w)


# ---------------------------------------------------------------------- JSON
def is_json(t):
    return "basic_json" in t


def unref(t):
    """the value in a json_ref or in a json object that is made from it"""
    for _ in range(6):
        if t[0] == "ctor" and ("json_ref" in t[1]) and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "ctor" and is_json(t[1]) and t[2] and t[2][0][0] not in ("agg", "ctor") and not is_c(t[2][0]):
            t = t[2][0]
        else:
            break
    return t


def strkey(t):
    t = unref(t)
    if is_c(t) and isinstance(t[1], str) and t[1].startswith("str:"):
        return t[1][4:]
    return None


def items(agg):
    return [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) else x for x in agg[2]]


def pairs(v):
    """[(key, value)] of an initialiser list, outermost level"""
    out = []

    def walk(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "agg":
            its = items(t)
            if len(its) == 2:
                k = strkey(its[0])
                if k is not None:
                    out.append((k, its[1]))
                    return
            for x in its:
                walk(x)
            return
        if t[0] == "ctor":
            for x in t[2]:
                walk(x)
    walk(v)
    return out


class Json:
    """what a path puts into the JSON object"""
    def __init__(self, o, j):
        self.sets = []     # (key, value)
        self.adds = []     # (key, value); key None: element of the object itself
        self.array = False
        loc = {}           # what was added to other JSON values
        arrays = [root_of(e[1]) for e in o.events if e[0] == "wr" and e[2][0] == "call" and short(e[2][1]) == "array" and
                  is_json(e[2][1])]
        inloop = 0
        for e in o.events:
            if e[0] == "loop":
                inloop += 1
            elif e[0] == "endloop":
                inloop -= 1
            elif e[0] == "wr":
                k = self.key(e[1])
                if k is not None:
                    self.sets = [x for x in self.sets if x[0] != k]
                    self.adds = [x for x in self.adds if x[0] != k]
                    self.put(k, e[2], loc, inloop)
                elif e[1] == j:
                    self.sets, self.adds = [], []
                    v = e[2]
                    self.array = any(t[0] == "call" and short(t[1]) == "array" and is_json(t[1]) for t in subterms(v)) or \
                        any(contains(v, r) for r in arrays)
                    for k, x in pairs(v):
                        self.put(k, x, loc, inloop)
                    self.splice(None, v, loc)
            elif e[0] == "call" and is_json(e[1]):
                nm = short(e[1])
                if nm in ("emplace_back", "push_back") and e[3]:
                    v = unref(e[3][0])
                    k = self.key(e[2])
                    if k is not None:
                        self.adds.append((k, v))
                    elif e[2] == j or self.content(e[2]):
                        ps = pairs(v) if nm == "push_back" else []
                        if ps:
                            for k, x in ps:
                                self.put(k, x, loc, inloop)
                        else:
                            self.adds.append((None, v))
                    else:
                        loc.setdefault(self.root(e[2]), []).append(v)
                elif nm in ("emplace",) and len(e[3]) == 2 and strkey(e[3][0]) is not None:
                    k = strkey(e[3][0])
                    if not any(x[0] == k for x in self.sets):
                        self.put(k, e[3][1], loc, inloop)
        self.loc = loc

    def content(self, t):
        """the JSON object as it was built so far"""
        return t is not None and t[0] in ("ctor", "call", "out") and not (t[0] == "call" and short(t[1]) == "operator[]")

    def root(self, t):
        return root_of(t) if t is not None else None

    def put(self, k, v, loc, inloop):
        self.sets.append((k, unref(v), inloop))
        self.splice(k, v, loc)

    def splice(self, k, v, loc):
        for r, vs in loc.items():
            if contains(v, r):
                self.adds += [(k, x) for x in vs]

    def key(self, t):
        if t is not None and t[0] == "call" and is_json(t[1]) and short(t[1]) in ("operator[]", "at") and t[3]:
            return strkey(t[3][0])
        return None


def obj_json(ck, prog, name, rec, fields):
    fns = fn_with(prog, "to_json", rec)
    for fn in fns[:1]:
        b = par(fn, 1)
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            js = Json(o, par(fn, 0))
            vs = [(v, k) for k, v, il in js.sets] + [(v, k) for k, v in js.adds]
            for f in fields:
                inst = "%s of %s" % (f, name)
                shown(ck, "json", inst, o, f, b, [(v, k) for v, k in vs if distinct(mentions(v, fields, b))], fields, w,
                      "the JSON of an object")
                ck.ob("json", inst + " exists", any(k == f.name and not il for k, v, il in js.sets),
                      "%s is missing in the JSON of an object if it is empty" % f, w)
            ks = [k for k, v, il in js.sets]
            ck.ob("names", "keys of " + name, len(ks) == len(set(ks)), "uses a name more than once: %s" % ks, w)
    return len(fns)


def coll_json(ck, prog, name, rec):
    fns = fn_with(prog, "to_json", rec)
    for fn in fns[:1]:
        coll = par(fn, 1)
        n = set()
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            js = Json(o, par(fn, 0))
            sub = [v for a, v in o.tests.items() if a[0] == "nz" and a[1][0] == "call" and
                   short(a[1][1]) == "isSubsetCollection" and a[1][2] == coll]
            ck.ob("array", name, js.array, "an empty collection is no array", w)
            if not ran_any(o):
                continue
            adds = [v for k, v in js.adds if k is None]
            if not ck.ob("array", name, len(adds) == 1, "an element is %d times in the array" % len(adds), w):
                continue
            v = adds[0]
            byid = v[0] == "call" and short(v[1]) in IDS
            el = v[2] if byid else v
            ck.ob("array", name, iterates(o, el, coll), "does not contain every element: %s" % show(v)[:120], w)
            if not sub:
                ck.ob("array", name, False, "does not distinguish subset collections", w)
                continue
            n.add(sub[0])
            ck.ob("array", name + (" as subset" if sub[0] else ""), byid == sub[0],
                  "shows the elements of a %s collection %s" % ("subset" if sub[0] else "normal", "by ID" if byid else "in full"), w)
        ck.ob("array", name, n == {True, False}, "handles only one of normal and subset collections", fn.loc)
    return len(fns)


# ------------------------------------------------------------------ sequences
def sequence(ck, fn, name, cont, rule="values"):
    """prints all elements of the vector cont in order"""
    hit = False
    for o in paths(ck, fn):
        w = "%s on path: %s" % (fn.loc, o.path())
        # other values are separators
        toks = [t for t in tokens(o) if t.kind == "val" and contains(t.v, cont)]
        restored(ck, fn, o, tokens(o), name)
        idx = []
        for t in toks:
            ix = [s[2] for s in subterms(t.v) if s[0] == "elem" and s[1] == cont]
            ix += [C(0) for s in subterms(t.v) if s[0] == "call" and short(s[1]) == "front" and s[2] == cont]
            ix += [s[3][0] for s in subterms(t.v) if s[0] == "call" and short(s[1]) in ("operator[]", "at") and s[2] == cont]
            idx.append(ix[0] if len(ix) == 1 else None)
        empty = [not v for a, v in o.tests.items() if a in (("nz", ("size", cont)), ("lt", C(0), ("size", cont)))] + \
                [v for a, v in o.tests.items() if a[0] == "eq" and set(a[1:]) == {C(0), ("size", cont)}]
        if not toks:
            ck.ob(rule, name, bool(empty) and empty[0], "prints nothing", w)
            continue
        hit = True
        nxt, ok = 0, None not in idx
        for i in idx if ok else ():
            if i == C(nxt):
                nxt += 1
                continue
            r = loop_range(o, i) if i[0] == "ind" else None
            ok = ok and r is not None and r[0] == C(nxt) and plain(r[1]) == ("size", cont) and (len(i) < 4 or i[3] == 1) and \
                any(e[0] == "endloop" and e[1] == i[1] for e in o.events)
            nxt = "all"
        ck.ob(rule, name, ok and nxt == "all", "does not print every element exactly once: %s" % [show(t.v) for t in toks], w)
    ck.ob(rule, name, hit, "never prints an element", fn.loc)


def parameters(ck, prog):
    rec = "podio::GenericParameters"
    maps = [f["n"] for f in prog.recs[rec]["fields"] if "map<" in f["t"]]
    fn = method(prog, rec, "print")
    for o in paths(ck, fn, printers):
        w = "%s on path: %s" % (fn.loc, o.path())
        toks = tokens(o)
        restored(ck, fn, o, toks, rec)
        vals = [t for t in toks if t.kind == "val"]
        for m in maps:
            loc = F(THIS, m)
            got = []
            for t in vals:
                for s in subterms(t.v):
                    if s[0] == "get" and s[1][0] == "elem" and s[1][1] == loc and s[1][2][0] == "ind":
                        got.append((s[2], s[1][2]))
            ck.ob("parameters", m, [g[0] for g in got] == [0, 1] and all(map_whole(o, loc, g[1]) for g in got),
                  "does not show every key with its value: %s" % [show(t.v) for t in vals if contains(t.v, loc)], w)
        flush(ck, fn, o, rec, w)
    for f in sorted(prog.funcs.values(), key=lambda x: str(x.params)):
        if f.name == "operator<<" and len(f.params) == 2 and f.params[1]["t"].startswith("const std::vector<") and f.q.startswith("podio::"):
            sequence(ck, f, strip_type(f.params[1]["t"])[:40], par(f, 1))


def map_whole(o, cont, idx):
    r = loop_range(o, idx)
    return r is not None and r[0] in (C(0), ("begin", cont)) and r[1] in (("size", cont), ("end", cont)) and \
        any(e[0] == "endloop" and e[1] == idx[1] for e in o.events)


# ------------------------------------------------------------------------ run
def run(ck):
    ck.rule("text", "the text of an object shows its ID and every member, vector member and relation (of a link: weight and "
                    "both ends) exactly once")
    ck.rule("table", "the text of a collection shows the same for each of its objects (array members are left out)")
    ck.rule("json", "the JSON of an object or component shows every field exactly once, empty ones too")
    ck.rule("names", "every field is shown under its own name")
    ck.rule("relations", "an object of a one-to-one relation or of a one-to-many relation within one type is shown by its "
            "ID, so that output ends for cyclic relations and shows empty ones; so are all related objects in tables and JSON")
    ck.rule("extent", "arrays, vector members and one-to-many relations are shown from the first to the last element")
    ck.rule("null", "an empty handle is shown as such, without asking it for its content")
    ck.rule("invalid", "the ID of an empty handle is the invalid one")
    ck.rule("id", "the text of an ID shows both of its parts, with something in between")
    ck.rule("rows", "the text of a collection shows each of its objects once, in order")
    ck.rule("columns", "the titles of the table are those of the values below")
    ck.rule("array", "the JSON of a collection is the array of its objects, for a subset collection of their IDs")
    ck.rule("print", "print shows the collection in the given stream and flushes it if asked to")
    ck.rule("format", "printing leaves the format flags of the stream as they were")
    ck.rule("values", "printing a user data collection or a parameter shows all values in order")
    ck.rule("parameters", "printing parameters shows every key with its value for each type")
    ck.rule("component", "the text of a component shows every member once, in the order of declaration")
    ck.rule("interface", "the text of an interface is that of the object in it")
    prog = ck.load("core", "cover")
    nobj = 0
    for dt in all_datatypes():
        fs = fields_of(dt)
        nobj += 1
        a = obj_text(ck, prog, dt.handle, dt.handle, fs)
        b = obj_json(ck, prog, dt.handle, dt.handle, fs)
        c = obj_json(ck, prog, dt.mut, dt.mut, fs)
        ck.ob("text", dt.handle + " declared", a == 1, "%d stream operators" % a)
        ck.ob("json", dt.handle + " declared", b == 1 and c == 1, "%d and %d conversions" % (b, c))
        a = coll_text(ck, prog, dt.coll, dt.coll, fs, [f for f in fs if f.kind == "value"])
        b = coll_json(ck, prog, dt.coll, dt.coll)
        c = print_method(ck, prog, dt.coll, dt.coll)
        ck.ob("table", dt.coll + " declared", a == 1 and c == 1, "%d stream operators" % a)
        ck.ob("array", dt.coll + " declared", b == 1, "%d conversions" % b)
    invalid(ck, prog)
    ident(ck, prog)
    # ------------------------------------------------------------- components
    for m in all_models():
        for c in m.components:
            component(ck, prog, c)
    # ------------------------------------------------------------------ links
    handles = [r for r in link_recs(prog, "LinkT")]
    for r in handles:
        n = obj_text(ck, prog, r, r, LINK)
        ck.ob("text", r + " declared", n > 0, "links cannot be printed: there is no stream operator for this type")
        n = obj_json(ck, prog, r, r, LINK)
        ck.ob("json", r + " declared", n > 0, "there is no conversion to JSON for this type")
    for r in link_recs(prog, "LinkCollection"):
        n = coll_text(ck, prog, r, r, LINK, LINK[:1])
        ck.ob("table", r + " declared", n > 0, "link collections cannot be printed")
        n = coll_json(ck, prog, r, r)
        ck.ob("array", r + " declared", n > 0, "there is no conversion to JSON for this type")
        print_method(ck, prog, r, r)
    # -------------------------------------------------------------- interfaces
    for m in all_interfaces():
        interface(ck, prog, m)
    # --------------------------------------------------- user data, parameters
    for r in sorted(prog.recs):
        if not r.startswith("podio::UserDataCollection<") or not methods(prog, r, "print"):
            continue
        fn = method(prog, r, "print")
        sz = field_of(ck, method(prog, r, "size", 0))
        if sz[0] != "size":
            raise AnalysisError("cannot find the values of " + r)
        sequence(ck, fn, r, sz[1])
        for o in paths(ck, fn):
            flush(ck, fn, o, r, fn.loc)
    parameters(ck, prog)
    ck.need("text", 3 * nobj)
    ck.need("json", 3 * nobj)
    ck.need("values", 10)
    ck.need("parameters", 4)


def invalid(ck, prog):
    """empty handles have the ID that belongs to no object"""
    for pair in handle_recs(prog):
        for rec in pair:
            for nm in IDS:
                for fn in methods(prog, rec, nm, 0):
                    alive = 0
                    for o in ck.outs(fn):
                        v = o.value
                        w = "%s on path: %s" % (fn.loc, o.path())
                        if v is not None and v[0] == "agg":
                            ck.ob("invalid", "%s::%s" % (rec, nm), all(plain(x[1]) in (C(-1), C(0xffffffff)) for x in v[2]) and
                                  o.kind == "ret", "an empty handle has the ID %s" % show(v), w)
                        else:
                            alive += 1
                            ck.ob("invalid", "%s::%s" % (rec, nm), o.kind == "ret" and v is not None and v[0] == "f" and
                                  v[2] == "id", "the ID is %s" % (show(v) if v is not None else o.kind), w)
                    ck.ob("invalid", "%s::%s" % (rec, nm), alive > 0, "no object has an ID", fn.loc)


def ident(ck, prog):
    """the text and the JSON of an ID show both parts of it"""
    rec = "podio::ObjectID"
    fields = [Field(f["n"], [], "value", None, (), f["n"]) for f in prog.recs[rec]["fields"]]
    fns = fn_with(prog, "operator<<", rec)
    for fn in fns[:1]:
        base = par(fn, 1)
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            toks = tokens(o)
            restored(ck, fn, o, toks, rec)
            vs = [(t.v, None) for t in toks if t.kind == "val"]
            for f in fields:
                shown(ck, "id", "%s of %s" % (f, rec), o, f, base, vs, fields, w, "the text of an ID")
            order = [list(distinct(mentions(t.v, fields, base)))[:1] if t.kind == "val" else t.v for t in toks
                     if t.kind == "val" or t.kind == "lit"]
            at = [i for i, x in enumerate(order) if isinstance(x, list)]
            ck.ob("id", rec, len(at) == 2 and any(isinstance(x, str) and x for x in order[at[0]:at[1]]),
                  "the parts of the ID cannot be told apart", w)
    ck.ob("id", rec + " declared", len(fns) == 1, "%d stream operators" % len(fns))
    n = obj_json(ck, prog, rec, rec, fields)
    ck.ob("json", rec + " declared", n == 1, "%d conversions" % n)


def component(ck, prog, c):
    rec = c.rec()
    fields = [Field(m.name, [], "array" if m.array else "value", m.n, (), m.name) for m in c.members]
    fns = fn_with(prog, "operator<<", rec)
    for fn in fns[:1]:
        base = par(fn, 1)
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            vs = [(t.v, None) for t in tokens(o) if t.kind == "val"]
            for f in fields:
                shown(ck, "component", "%s of %s" % (f, rec), o, f, base, vs, fields, w, "the text of a component")
            order = [list(distinct(mentions(v, fields, base)))[:1] for v, _ in vs]
            order = [x[0] for x in order if x]
            ck.ob("component", "order of " + rec, order == [f.name for f in fields], "shows %s" % order, w)
    ck.ob("component", rec + " declared", len(fns) == 1, "%d stream operators" % len(fns))
    n = obj_json(ck, prog, rec, rec, fields)
    ck.ob("json", rec + " declared", n == 1, "%d conversions" % n)


def interface(ck, prog, m):
    fns = fn_with(prog, "operator<<", m.rec())
    for fn in fns[:1]:
        for o in paths(ck, fn):
            w = "%s on path: %s" % (fn.loc, o.path())
            cs = [e for e in o.events if e[0] == "call" and short(e[1]) == "print" and e[2] is not None and contains(e[2], par(fn, 1))]
            ok = len(cs) == 1 and cs[0][3] and stream_of(cs[0][3][0]) == par(fn, 0)
            vals = [t for t in tokens(o) if t.kind == "val"]
            ck.ob("interface", m.rec(), ok and not vals, "does not print the object in it exactly once", w)
    n = 0
    for r in sorted(prog.recs):
        if r.startswith(m.rec() + "::Model<"):
            for fn in methods(prog, r, "print"):
                n += 1
                flds = [f["n"] for f in prog.recs[r]["fields"]]
                for o in paths(ck, fn):
                    vals = [t for t in tokens(o) if t.kind == "val"]
                    ok = len(vals) == 1 and vals[0].v[0] == "f" and vals[0].v[1] == THIS and vals[0].v[2] in flds and \
                        vals[0].stream == par(fn, 0)
                    ck.ob("interface", r, ok, "prints %s" % vals, fn.loc)
    ck.ob("interface", m.rec() + " declared", len(fns) == 1 and n == len(m.types), "%d operators, %d printed types" % (len(fns), n))
    return n
