"""Semantic queries on abstract paths that all checks share"""
from .frontend import AnalysisError
from .interp import (C, NULL, contains, deref, has_prefix, is_c, mk_eq, neg, root_of, show, truth)
from .interp import subterms as _subterms

THIS = ("this",)
MUTATORS = {"push_back", "emplace_back", "push_front", "emplace_front", "emplace", "try_emplace", "insert",
            "insert_or_assign", "erase", "clear", "resize", "pop_back", "pop_front", "swap", "assign", "append",
            "append_range", "operator+=", "map[]", "extract", "merge"}


def subterms(t):
    """all terms in t (not the tuples that terms are built of)"""
    for x in _subterms(t):
        if x and isinstance(x[0], str):
            yield x


def par(fn, i):
    p = fn.params[i]
    return ("par", p["v"])


def F(base, *names):
    for n in names:
        base = ("f", base, n)
    return base


def is_local(loc):
    r = root_of(loc)
    return isinstance(r, tuple) and r and r[0] in ("var", "obj", "agg", "ctor", "some")


def short_call(q):
    return q.split("::")[-1]


class Effect:
    __slots__ = ("kind", "loc", "args", "where", "held", "ev", "pos")

    def __init__(self, kind, loc, args, where, held, ev, pos):
        self.kind, self.loc, self.args, self.where, self.held, self.ev, self.pos = kind, loc, args, where, held, ev, pos

    def __repr__(self):
        return "%s %s %s" % (self.kind, show(self.loc), [show(a) for a in self.args])


def effects(o, local=False):
    """everything a path changes that is visible outside of it"""
    out = []
    for i, e in enumerate(o.events):
        if e[0] == "wr":
            if local or not is_local(e[1]):
                out.append(Effect("wr", e[1], (e[2],), e[3], e[4] if len(e) > 4 else (), e, i))
        elif e[0] == "call":
            nm = short_call(e[1])
            f = e[7] if len(e) > 7 else {}
            if e[2] is None:
                continue
            lib = e[1].startswith("std::") or e[1] in ("map[]", "append_range")
            if lib:
                if nm in MUTATORS and (local or not is_local(e[2])):
                    out.append(Effect(nm, e[2], e[3], e[5], e[6], e, i))
            elif not f.get("const") and not f.get("static") and (local or not is_local(e[2])):
                out.append(Effect("call:" + nm, e[2], e[3], e[5], e[6], e, i))
        elif e[0] == "delete":
            out.append(Effect("delete", e[1], (), e[2] if len(e) > 2 else "", (), e, i))
        elif e[0] == "release" and not is_local(e[2]):
            out.append(Effect("release", e[2], (), e[3], (), e, i))
    return out


def one_method(prog, rec, name, **kw):
    ms = prog.methods(rec, name, **kw)
    if len(ms) != 1:
        raise AnalysisError("expected exactly one %s::%s %s, found %d" % (rec, name, kw, len(ms)))
    return ms[0]


def methods(prog, rec, name, n=None, const=None, pt=None):
    out = []
    for m in prog.by_rec.get(rec, []):
        if m.name != name:
            continue
        if n is not None and len(m.params) != n:
            continue
        if const is not None and m.const != const:
            continue
        if pt is not None and not all(s in p["t"] for s, p in zip(pt, m.params)):
            continue
        out.append(m)
    return out


def method(prog, rec, name, n=None, const=None, pt=None, optional=False):
    ms = methods(prog, rec, name, n, const, pt)
    if len(ms) == 0 and optional:
        return None
    if len(ms) != 1:
        raise AnalysisError("expected exactly one %s::%s/%s, found %d" % (rec, name, n, len(ms)))
    return ms[0]


def leaves(t):
    """the inputs a value depends on"""
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] in ("par", "var", "this", "g", "c", "obj", "hav"):
        return {t}
    out = set()
    for x in t:
        if isinstance(x, tuple):
            out |= leaves(x)
    return out


def field_of(ck, fn, this=THIS):
    """the (unique) location a simple getter returns"""
    vals = {o.value for o in ck.outs(fn) if o.kind == "ret"}
    if len(vals) != 1:
        raise AnalysisError("%r is no simple getter" % fn)
    return vals.pop()


def cond(o, atom):
    """truth value of an atom on a path (None: undecided)"""
    if is_c(atom):
        return bool(atom[1])
    if atom[0] == "not":
        v = o.tests.get(atom[1])
        return None if v is None else not v
    return o.tests.get(atom)


def in_table(o, cont, key, others=()):
    """is the path known to have (True) / not have (False) key in the
    sequence or map cont; None if it did not check.  others: containers of
    the same length"""
    for a, v in o.tests.items():
        if a[0] == "has" and a[1] == cont and a[2] == key:
            return v
        if a[0] == "lt" and a[1] == ("pos", cont, key) and a[2][0] == "size" and a[2][1] in (cont,) + tuple(others):
            return v
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x == ("pos", cont, key) and y[0] == "size" and y[1] in (cont,) + tuple(others):
                    return not v
                if x == key and y[0] == "elem" and y[1] == cont and v:
                    return True
    # searched by a loop or by an algorithm with a predicate
    seen = any(a[0] == "eq" and key in a[1:] and any(x[0] == "elem" and x[1] == cont for x in a[1:]) and not v
               for a, v in o.tests.items())
    if seen:
        return False
    for a, v in o.tests.items():
        # an empty container was searched
        if not v and ((a[0] == "nz" and a[1][0] == "size" and a[1][1] in (cont,) + tuple(others)) or
                      (a[0] == "lt" and a[2][0] == "size" and a[2][1] in (cont,) + tuple(others))):
            return False
    return None


def index_of(o, idx, cont, key):
    """does idx denote the position of key in cont on this path"""
    if idx == ("pos", cont, key):
        return True
    return o.tests.get(mk_eq(("elem", cont, idx), key)) is True


def line(fn):
    return fn.loc
